SPECIFICATION Spec
CONSTANTS Leaves = {"a", "*", "eps", "empty"} Ops = 4 Len_ = 3 Emit = FALSE
INVARIANTS Meaning Construction Printing
CHECK_DEADLOCK FALSE
