INIT Init
NEXT Next
CONSTANTS
  Kinds = {"cert", "req", "msg", "enc", "epki"}
  KeyNums = {1, 2}
  Lens = {0, 5}
  Damage = {1}
  KeyList <- MCKeys
  Contents <- MCContents
  Secrets <- MCSecrets
INVARIANTS Accepted OtherKey OtherContent Noticed Names Opened NotOpened
CHECK_DEADLOCK FALSE
