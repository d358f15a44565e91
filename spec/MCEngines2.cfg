INIT Init
NEXT Next
CONSTANTS
  Most = 3
  Angles <- AnglesT
INVARIANTS Order Adds Twice Nothing One Flow Still Falling
CHECK_DEADLOCK FALSE
