CONSTANTS
  Curves <- MCCurves
  Tables <- MCTables
  Orders = {TRUE, FALSE}
  Damage = {1}
  Which = {1, 2}
INIT EqInit
NEXT EqNext
INVARIANTS Agrees Transitive
CHECK_DEADLOCK FALSE
