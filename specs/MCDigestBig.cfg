INIT Init
NEXT Next
CONSTANTS
  MaxMsg = 6
  MaxUpd = 4
  Slots = {1, 2}
INVARIANTS DigestIsOfOwnMessage RemShort
CHECK_DEADLOCK FALSE
