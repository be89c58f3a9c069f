INIT Init
NEXT Next
CONSTANTS
  D = 25
  Hard = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
