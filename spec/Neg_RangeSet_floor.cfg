CONSTANTS MaxL1 = 9 MaxN1 = 10 MaxL2 = 4 MaxN2 = 4 Mode = "floor"
INIT Init
NEXT Next
INVARIANTS Inv
CHECK_DEADLOCK FALSE
