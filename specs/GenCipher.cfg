INIT Init
NEXT Next
CONSTANTS
  Slots = {1, 2, 3}
  Lens = {1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 24, 40}
  D = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE
