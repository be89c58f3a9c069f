CONSTANTS
  Curve <- MCCurve
  Keys <- MCKeys
  Hashes <- MCHashes
  Which = 1
  MaxSig = 2
  MaxDraw = 3
SPECIFICATION Spec
INVARIANTS InRange OwnDraw Recovered OnlyGood WayOut
PROPERTIES Ends
CHECK_DEADLOCK FALSE
