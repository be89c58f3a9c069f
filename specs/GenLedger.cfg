INIT Init
NEXT Next
CONSTANT D = 60
INVARIANT Emit
CHECK_DEADLOCK FALSE
