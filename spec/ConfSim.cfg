INIT Init
NEXT Next
CONSTANT MaxDiscards = 21
CONSTANT Mission <- CaseMission
INVARIANT Inv
CONSTRAINT Constraint
CHECK_DEADLOCK FALSE
