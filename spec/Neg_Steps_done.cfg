CONSTANTS Kind = "ssprk3" Model = "gas" NState = 4 NRhs = 1 MaxN = 1 Broken = "none"
INIT Init
NEXT Next
INVARIANTS NeverDone
CHECK_DEADLOCK FALSE
