CONSTANTS Slots = {0, 1} MaxDims = 2 NegB = 1 MaxB = 1 HistLen = 0
INIT Init
NEXT Next
INVARIANTS Inv Inv2
PROPERTY FrameProp
CHECK_DEADLOCK FALSE
