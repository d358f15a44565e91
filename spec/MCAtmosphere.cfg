INIT Init
NEXT Next
CONSTANT Grid = 100
INVARIANTS Hydrostatic Falls Warm Layered Lines Meet
CHECK_DEADLOCK FALSE
