CONSTANTS Kinds = {"bc_periodic"} Shapes = {2, 5, 23, 42, 222} NC = 1 Broken = "corner"
INIT Init
NEXT Next
INVARIANTS Outcome 
CHECK_DEADLOCK FALSE
