CONSTANTS Coords = {0, 1, 2, 3, 4, 5, 7}
INIT Init
NEXT Next
INVARIANTS SpeciesAgree Wave Tubes
CHECK_DEADLOCK FALSE
