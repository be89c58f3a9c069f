SPECIFICATION Spec
CONSTANTS
  T = {1, 2, 3}
  Len0 = 2
  Scratch = FALSE
INVARIANTS AsAlone Once All
CHECK_DEADLOCK FALSE
