CONSTANTS Kind = "rk1" Model = "field" NState = 2 NRhs = 1 MaxN = 3 Broken = "none"
INIT Init
NEXT Next
INVARIANTS Sound
CHECK_DEADLOCK FALSE
