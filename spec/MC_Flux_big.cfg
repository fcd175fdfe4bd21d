CONSTANTS Vals = {0, 1, 3} Speeds = {1, 2} What = "em"
INIT Init
NEXT Next
INVARIANTS EmLaw
CHECK_DEADLOCK FALSE
