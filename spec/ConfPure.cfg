INIT Init
NEXT Next
CONSTANTS
  Slots = {1, 2, 3}
  Missions = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
  Worlds = {0, 1, 2, 3, 4}
  Refused = {4, 8, 12, 16}
INVARIANTS RunsWhatWasLoaded Inv
CHECK_DEADLOCK FALSE
