CONSTANTS Vals = {0, 1, 2, 3, 5, 8} Speeds = {1, 2, 3} What = "slope"
INIT Init
NEXT Next
INVARIANTS SlopeLaw
CHECK_DEADLOCK FALSE
