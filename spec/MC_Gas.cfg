CONSTANTS Vals = {0, 1, 3} Speeds = {7, 10} What = "gas"
INIT Init
NEXT Next
INVARIANTS GasLaw
CHECK_DEADLOCK FALSE
