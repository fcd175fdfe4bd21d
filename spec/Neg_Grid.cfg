CONSTANTS N = 4 Steps = 3 Broken = TRUE
INIT Init
NEXT Next
INVARIANTS Tiles
PROPERTIES Alone
CHECK_DEADLOCK FALSE
