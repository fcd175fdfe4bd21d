CONSTANTS Kind = "ssprk3" Model = "gas" NState = 4 NRhs = 1 MaxN = 1 Broken = "ghost"
INIT Init
NEXT Next
INVARIANTS Sound
CHECK_DEADLOCK FALSE
