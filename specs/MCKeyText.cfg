CONSTANTS
  Curves <- MCCurves
  Tables <- MCTables
  Orders = {TRUE, FALSE}
  Damage = {1}
  Which = {1, 2}
INIT TxInit
NEXT TxNext
INVARIANTS Tells Hides
CHECK_DEADLOCK FALSE
