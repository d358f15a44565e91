SPECIFICATION Spec
CONSTANTS
  MaxDiscards = 2
  Phases = 2
  Horizon = 3
  Values <- ValuesB
  Steps = {1, 2}
  Danger = 9
CONSTRAINT InTime
INVARIANTS TypeOK AllRun FullSteps NothingAfter NoRecordOf Initialised
PROPERTIES Order EndMet FirstCrossing SameSide DiscardClean GivesUp EveryPhaseAnew Clocks Records Announced Ends
CHECK_DEADLOCK FALSE
