INIT Init
NEXT Next
CONSTANTS
  XS = {1, 2}
  QS = {1}
  Keys = {1, 2}
  Tables = {5}
  Octets = {0, 1}
  MaxMsg = 1
  Retarget = FALSE
INVARIANTS Own Counted
CHECK_DEADLOCK FALSE
