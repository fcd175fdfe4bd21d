CONSTANTS Slots = {0, 1, 2} MaxDims = 8 NegB = 2 MaxB = 3 HistLen = 40
INIT Init
NEXT SimNext
INVARIANTS Emit
CHECK_DEADLOCK FALSE
