CONSTANTS NSlots = 3 Vals = {0} MaxDims = 3 MaxL = 4 HistLen = 50
INIT SimInit
NEXT SimNext
INVARIANTS Emit
CHECK_DEADLOCK FALSE
