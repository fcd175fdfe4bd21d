CONSTANTS Fluids = {1, 2} Fields = {11} HistLen = 3 Ops = {"fill", "bc", "swap", "rk1", "lorentz", "current", "print"}
INIT Init
NEXT Next
VIEW View
INVARIANTS SwapBack BcAgain FillForgets
PROPERTIES Frame
CHECK_DEADLOCK FALSE
