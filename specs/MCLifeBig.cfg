SPECIFICATION Spec
CONSTANTS
  Ctx = {1, 2, 3, 4, 5, 6}
  MaxRef = 12
INVARIANTS NothingReferencedIsFreed Lookup Explained FreedOnce
CHECK_DEADLOCK FALSE
