CONSTANTS NSlots = 2 Vals = {0, 1} MaxDims = 2 MaxL = 2 HistLen = 0
INIT Init
NEXT Next
INVARIANTS Sound
CHECK_DEADLOCK FALSE
