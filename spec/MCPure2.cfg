INIT PInit
NEXT PNext
CONSTANTS
  Slots = {1, 2}
  Missions = {1, 2, 4}
  Worlds = {0, 1}
  Refused = {4}
  Length = 6
CONSTRAINT Short
INVARIANTS RunsWhatWasLoaded Fresh Emptied NoRefused World
PROPERTIES Held
CHECK_DEADLOCK FALSE
