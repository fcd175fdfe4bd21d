CONSTANTS MaxDims = 3 MaxLen = 4
INIT Init
NEXT Next
INVARIANTS Bijective FirstFastest
CHECK_DEADLOCK FALSE
