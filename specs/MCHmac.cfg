INIT Init
NEXT Next
CONSTANTS
  MaxMsg = 2
  Slots = {1, 2}
INVARIANT Own
CHECK_DEADLOCK FALSE
