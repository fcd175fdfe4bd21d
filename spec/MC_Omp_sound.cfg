CONSTANTS NIter = 3 NThr = 3 Kinds = {"gather", "atomic", "scatter", "shared", "private", "critical"}
INIT Init
NEXT Next
INVARIANTS Sound
CHECK_DEADLOCK FALSE
