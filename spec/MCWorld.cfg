SPECIFICATION Spec
CONSTANTS
  Mission <- CaseMission
  MaxDiscards = 21
  Longest = 90
CONSTRAINT Bounded
INVARIANTS TypeOK AllRun InForce FullSteps Masses Limited NotTurning
PROPERTIES Order Constant EndMet FirstCrossing DiscardClean GivesUp EveryPhaseAnew Clocks Burning Staged Continuous Records Announced
CHECK_DEADLOCK FALSE
