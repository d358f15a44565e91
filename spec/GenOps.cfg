INIT PInit
NEXT PNext
CONSTANTS
  Slots = {1, 2}
  Missions = {1, 2, 3, 4}
  Worlds = {0}
  Refused = {4}
  Length = 4
CONSTRAINT Short
INVARIANTS RunsWhatWasLoaded Out
CHECK_DEADLOCK FALSE
