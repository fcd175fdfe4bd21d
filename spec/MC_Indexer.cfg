CONSTANTS MaxDims = 2 NegB = 1 MaxB = 2 Slots = {0} HistLen = 0
INIT Init
NEXT Next
INVARIANTS Inv
CHECK_DEADLOCK FALSE
