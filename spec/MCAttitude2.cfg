INIT Init
NEXT Next
CONSTANT Grid = 18
INVARIANTS Orthogonal RightHanded Stands OrderLaw PolyLaw RollLaw PitchLaw YawLaw
CHECK_DEADLOCK FALSE
