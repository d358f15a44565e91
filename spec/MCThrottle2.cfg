INIT Init
NEXT Next
CONSTANTS
  Comp <- CompT
  Limits = {0, 1, 7, 13, 20, 33, 60}
INVARIANTS Range Kept Exact Full Best Feasible Greatest Least None Infinite
CHECK_DEADLOCK FALSE
