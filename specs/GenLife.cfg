INIT GInit
NEXT GNext
CONSTANTS
  Ctx = {1}
  MaxRef = 4
  D = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE
