CONSTANTS
  Procs = {1, 2}
  Threads = {"t1", "t2"}
  Sizes = {1, 2}
  MaxReq = 4
  MaxEpoch = 3
  MaxClean = 2
SPECIFICATION Spec
INVARIANTS Disjoint Consecutive NoGap FailNothing OneIn
PROPERTIES Served
CHECK_DEADLOCK FALSE
