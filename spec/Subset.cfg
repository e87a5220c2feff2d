SPECIFICATION Spec
CONSTANTS Ms = {"n11", "n12", "n22"}
INVARIANTS Numbered OnlyReachable Right Back
CHECK_DEADLOCK FALSE
