INIT Init
NEXT Next
CONSTANTS
  Coef <- CoefT
  Sizes <- SizesT
INVARIANTS Cubic Taylor Stages
CHECK_DEADLOCK FALSE
