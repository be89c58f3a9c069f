CONSTANTS
  Slots = {1, 2}
  D = 3
INIT Init
NEXT Next
INVARIANTS Settings KeysHonour
PROPERTIES OnlyOwn
CHECK_DEADLOCK FALSE
