INIT Init
NEXT Next
CONSTANTS
  MaxMsg = 4
  Slots = {1, 2}
INVARIANT Own
CHECK_DEADLOCK FALSE
