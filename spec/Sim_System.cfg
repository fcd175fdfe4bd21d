CONSTANTS Fluids = {1, 2, 3, 4, 5} Fields = {11, 12, 13} HistLen = 22 Ops = {"fill", "bc", "swap", "rk1", "rk3", "lorentz", "current", "print"}
INIT Init
NEXT SimNext
INVARIANTS Emit
CHECK_DEADLOCK FALSE
