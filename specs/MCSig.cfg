CONSTANTS
  Curves <- MCCurves
  Hashes <- MCHashes
  Orders = {TRUE, FALSE}
  Which = {1, 2}
  HashMax = 31
INIT Init
NEXT Next
INVARIANTS KeySound SignedOk CheckedOk WayOut
CHECK_DEADLOCK FALSE
