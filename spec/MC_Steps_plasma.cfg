CONSTANTS Kind = "rk1" Model = "plasma" NState = 4 NRhs = 2 MaxN = 1 Broken = "none"
INIT Init
NEXT Next
INVARIANTS Sound
CHECK_DEADLOCK FALSE
