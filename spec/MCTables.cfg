INIT Init
NEXT Next
CONSTANT Most = 3
INVARIANTS Fine TwoWays NoEffect Point Everywhere Local
CHECK_DEADLOCK FALSE
