INIT Init
NEXT Next
CONSTANTS
  Slots = {0, 1, 2}
  
  D = 30
INVARIANT Emit
CHECK_DEADLOCK FALSE
