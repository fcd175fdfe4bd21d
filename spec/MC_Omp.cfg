CONSTANTS NIter = 4 NThr = 3 Kinds = {"gather", "atomic", "private", "critical"}
INIT Init
NEXT Next
INVARIANTS NoRace Sequential Sound
CHECK_DEADLOCK FALSE
