SPECIFICATION Spec
CONSTANTS
  T = {1, 2}
  Len0 = 3
  Scratch = FALSE
INVARIANTS AsAlone Once All
CHECK_DEADLOCK FALSE
