INIT Init
NEXT Next
CONSTANTS
  MaxMsg = 5
  MaxUpd = 3
  Slots = {1, 2}
INVARIANTS DigestIsOfOwnMessage RemShort
CHECK_DEADLOCK FALSE
