INIT Init
NEXT Next
CONSTANT MaxDiscards = 21
INVARIANT Inv
CONSTRAINT Constraint
CHECK_DEADLOCK FALSE
