CONSTANTS
  Curves <- MCCurves
  Tables <- MCTables
  Orders = {TRUE, FALSE}
  Damage = {1, 2, 4, 16, 64, 128, 255}
  Which = {1, 2, 3, 4, 5}
INIT Init
NEXT Next
INVARIANTS RoundTrip NoHalf
CHECK_DEADLOCK FALSE
