CONSTANTS Slots = {0, 1, 2} MaxDims = 4 NegB = 6 MaxB = 7 HistLen = 40
INIT Init
NEXT SimNext
INVARIANTS Emit
CHECK_DEADLOCK FALSE
