SPECIFICATION Spec
CONSTANTS
  T = {1, 2}
  Len0 = 2
  Scratch = FALSE
INVARIANTS AsAlone Once All
PROPERTIES AllEnd
CHECK_DEADLOCK FALSE
