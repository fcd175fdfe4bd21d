CONSTANTS Lens = {1, 2, 3} Gs = {0, 1, 2} MaxDims = 3 NData = 2
INIT Init
NEXT Next
INVARIANTS Inv
CHECK_DEADLOCK FALSE
