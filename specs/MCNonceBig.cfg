CONSTANTS
  Curve <- MCCurve
  Keys <- MCKeys
  Hashes <- MCHashes
  Which = 2
  MaxSig = 2
  MaxDraw = 4
SPECIFICATION Spec
INVARIANTS InRange OwnDraw Recovered OnlyGood WayOut
PROPERTIES Ends
CHECK_DEADLOCK FALSE
