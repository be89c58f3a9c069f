CONSTANTS
  Curves <- MCCurves
  Hashes <- MCHashes
  Orders = {TRUE}
  Which = {1, 2, 3, 4}
  HashMax = 127
INIT Init
NEXT Next
INVARIANTS KeySound SignedOk CheckedOk WayOut
CHECK_DEADLOCK FALSE
