INIT Init
NEXT Next
CONSTANTS
  Most = 2
  Angles <- AnglesQ
INVARIANTS Order Adds Twice Nothing One Flow Still Falling
CHECK_DEADLOCK FALSE
