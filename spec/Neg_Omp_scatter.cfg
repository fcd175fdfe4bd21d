CONSTANTS NIter = 3 NThr = 2 Kinds = {"scatter"}
INIT Init
NEXT Next
INVARIANTS Sequential
CHECK_DEADLOCK FALSE
