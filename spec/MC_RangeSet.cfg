CONSTANTS MaxL1 = 9 MaxN1 = 10 MaxL2 = 4 MaxN2 = 4 Mode = "ceil"
INIT Init
NEXT Next
INVARIANTS Inv Rel
CHECK_DEADLOCK FALSE
