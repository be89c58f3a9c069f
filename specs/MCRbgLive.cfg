CONSTANTS
  Procs = {1, 2}
  Threads = {"t1", "t2"}
  Sizes = {1, 2}
  MaxReq = 2
  MaxEpoch = 3
  MaxClean = 1
SPECIFICATION Spec
INVARIANTS Disjoint
PROPERTIES Served
CHECK_DEADLOCK FALSE
