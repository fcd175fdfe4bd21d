CONSTANTS Vals = {0, 1, 2}
INIT Init
NEXT Next
INVARIANTS MagneticDoesNoWork EnergyBalances ForceWork
CHECK_DEADLOCK FALSE
