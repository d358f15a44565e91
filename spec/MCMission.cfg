INIT Init
NEXT Next
CONSTANT Phases = 2
INVARIANTS LastWins InFull Forgets
CHECK_DEADLOCK FALSE
