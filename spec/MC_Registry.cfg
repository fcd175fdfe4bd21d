CONSTANTS Names = {1, 2, 3} Bases = {1, 2} Comps = {7, 8} MaxVars = 4
INIT Init
NEXT Next
INVARIANTS Agrees OneStorage Consistent Total
PROPERTIES StaysPut OthersKept
CHECK_DEADLOCK FALSE
