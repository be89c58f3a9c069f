CONSTANTS
  Procs = {1, 2}
  Threads = {"t1", "t2"}
  Sizes = {1, 2}
  MaxReq = 3
  MaxEpoch = 3
  MaxClean = 1
SPECIFICATION Spec
INVARIANTS Disjoint Consecutive NoGap FailNothing OneIn
CHECK_DEADLOCK FALSE
