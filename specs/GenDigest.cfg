INIT Init
NEXT Next
CONSTANTS
  Slots = {1, 2, 3}
  Lens = {0, 1, 7, 31, 32, 33, 63, 64, 65, 100}
  D = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE
