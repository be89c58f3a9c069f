INIT Init
NEXT Next
INVARIANT End
CHECK_DEADLOCK FALSE
