INIT Init
NEXT Next
CONSTANT Phases = 3
INVARIANTS LastWins InFull Forgets
CHECK_DEADLOCK FALSE
