CONSTANTS MaxDims = 4 NegB = 3 MaxB = 4 Slots = {0, 1, 2} HistLen = 60
INIT SimInit
NEXT SimNext
INVARIANTS Emit
CHECK_DEADLOCK FALSE
