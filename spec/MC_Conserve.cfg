CONSTANTS Vals = {0, 1, 3, 4} N = 5 Broken = FALSE
INIT Init
NEXT Next
INVARIANTS FluxSums AdvSums Uniform
CHECK_DEADLOCK FALSE
