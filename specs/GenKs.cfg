CONSTANTS
 D = 30
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
