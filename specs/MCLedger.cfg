INIT Init
NEXT Next
CONSTANTS
  H = {1, 2, 3}
  Max = 5
INVARIANTS Exact Counted Nothing NoneLost
CHECK_DEADLOCK FALSE
