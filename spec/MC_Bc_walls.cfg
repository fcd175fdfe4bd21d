CONSTANTS Kinds = {"bc_copy_out", "bc_no_slip", "bc_free_slip", "bc_conducting_wall"} Shapes = {2, 5, 23, 42} NC = 5 Broken = "no"
INIT Init
NEXT Next
INVARIANTS Outcome Idempotent InteriorKept
CHECK_DEADLOCK FALSE
