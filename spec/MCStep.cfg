INIT Init
NEXT Next
CONSTANTS
  Coef <- CoefQ
  Sizes <- SizesQ
INVARIANTS Cubic Taylor Stages
CHECK_DEADLOCK FALSE
