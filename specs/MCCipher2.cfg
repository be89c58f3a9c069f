INIT Init
NEXT Next
CONSTANTS
  Slots = {1, 2}
  MaxData = 3
  MaxUpd = 2
  Keys = {"k1"}
  Ivs = {"i1"}
  Tables = {"t1"}
INVARIANTS OutputIsCfb ExportIsExact Settings RoundTrip
CHECK_DEADLOCK FALSE
