CONSTANTS
  Slots = {1, 2}
  D = 2
INIT Init
NEXT Next
INVARIANTS Settings KeysHonour
PROPERTIES OnlyOwn
CHECK_DEADLOCK FALSE
