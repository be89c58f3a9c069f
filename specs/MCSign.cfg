INIT Init
NEXT Next
CONSTANTS
  XS = {1, 2}
  QS = {1, 2}
  Keys = {1, 2}
  Tables = {5}
  Octets = {0, 1}
  MaxMsg = 1
  Retarget = TRUE
INVARIANTS Own Counted
CHECK_DEADLOCK FALSE
