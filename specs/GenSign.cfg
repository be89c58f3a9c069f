INIT Init
NEXT Next
CONSTANTS
  XS = {1, 2, 3}
  QS = {1, 2}
  Keys = {1, 2, 3, 4}
  Pieces = {1, 2, 3, 4}
  Tables = {1, 2}
  D = 45
INVARIANT Emit
CHECK_DEADLOCK FALSE
