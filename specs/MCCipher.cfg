INIT Init
NEXT Next
CONSTANTS
  Slots = {1}
  MaxData = 5
  MaxUpd = 3
  Keys = {"k1", "k2"}
  Ivs = {"i1", "i2"}
  Tables = {"t1"}
INVARIANTS OutputIsCfb ExportIsExact Settings RoundTrip
CHECK_DEADLOCK FALSE
