SPECIFICATION Spec
CONSTANTS
  MaxDiscards = 2
  Phases = 1
  Horizon = 5
  Values <- ValuesA
  Steps = {1, 3, 4}
  Danger = 9
CONSTRAINT InTime
INVARIANTS TypeOK AllRun FullSteps NothingAfter NoRecordOf Initialised
PROPERTIES Order EndMet FirstCrossing SameSide DiscardClean GivesUp EveryPhaseAnew Clocks Records Announced Ends
CHECK_DEADLOCK FALSE
