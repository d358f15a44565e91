SPECIFICATION Spec
CONSTANTS
  MaxDiscards = 1
  Phases = 3
  Horizon = 1
  Values <- ValuesD
  Steps = {1, 2}
  Danger = 9
CONSTRAINT InTime
INVARIANTS TypeOK AllRun FullSteps NothingAfter NoRecordOf Initialised
PROPERTIES Order EndMet FirstCrossing SameSide DiscardClean GivesUp EveryPhaseAnew Clocks Records Announced Ends
CHECK_DEADLOCK FALSE
