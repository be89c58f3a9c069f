SPECIFICATION Spec
CONSTANTS
  Ctx = {1, 2, 3}
  MaxRef = 4
INVARIANTS NothingReferencedIsFreed Lookup Explained FreedOnce
CHECK_DEADLOCK FALSE
