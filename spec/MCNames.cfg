INIT Init
NEXT Next
INVARIANTS Same Ruled Distinct Complete Count Used Alive Zero
CHECK_DEADLOCK FALSE
