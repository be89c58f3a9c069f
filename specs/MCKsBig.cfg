CONSTANTS S = {0, 1}  R = {0, 1, 2}  MaxK = 2  MaxC = 1  MaxObj = 8
INIT Init
NEXT Next
INVARIANTS Exact Distinct Bounds Apart
CHECK_DEADLOCK FALSE
