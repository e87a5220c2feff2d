SPECIFICATION Spec
CONSTANTS Ms = {"n21", "n22", "n31e"}
INVARIANTS Numbered OnlyReachable Right Back
CHECK_DEADLOCK FALSE
