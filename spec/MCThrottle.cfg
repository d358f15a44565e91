INIT Init
NEXT Next
CONSTANTS
  Comp <- CompQ
  Limits = {1, 7, 20, 33}
INVARIANTS Range Kept Exact Full Best Feasible Greatest Least None Infinite
CHECK_DEADLOCK FALSE
