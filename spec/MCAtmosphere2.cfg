INIT Init
NEXT Next
CONSTANT Grid = 10
INVARIANTS Hydrostatic Falls Warm Layered Lines Meet
CHECK_DEADLOCK FALSE
