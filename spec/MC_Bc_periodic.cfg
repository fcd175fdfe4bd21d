CONSTANTS Kinds = {"bc_periodic"} Shapes = {2, 5, 23, 42, 222} NC = 1 Broken = "no"
INIT Init
NEXT Next
INVARIANTS Outcome Idempotent InteriorKept
CHECK_DEADLOCK FALSE
