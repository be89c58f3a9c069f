CONSTANTS
  Curves <- MCCurves
  Tables <- MCTables
  Orders = {TRUE, FALSE}
  Damage = {1, 128, 255}
  Which = {1, 2}
INIT Init
NEXT Next
INVARIANTS RoundTrip NoHalf
CHECK_DEADLOCK FALSE
