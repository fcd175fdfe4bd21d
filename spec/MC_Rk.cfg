CONSTANTS U = {0, 1, 5} Rs = {0, 1, 4} Stages = {0, 1, 2}
INIT Init
NEXT Next
INVARIANTS FullStep Judge
PROPERTIES OnlyOwn
CHECK_DEADLOCK FALSE
