INIT Init
NEXT Next
CONSTANTS
  Kinds = {"cert", "req", "msg", "enc", "epki"}
  KeyNums = {1, 2, 3, 4}
  Lens = {0, 1, 5, 40}
  Damage = {1, 128, 255}
  KeyList <- MCKeys
  Contents <- MCContents
  Secrets <- MCSecrets
INVARIANTS Accepted OtherKey OtherContent Noticed Names Opened NotOpened
CHECK_DEADLOCK FALSE
