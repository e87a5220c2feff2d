SPECIFICATION Spec
CONSTANTS Leaves = {"a", "b", "eps", "empty"} Ops = 6 Len_ = 3 Emit = FALSE
INVARIANTS Meaning Construction Printing
CHECK_DEADLOCK FALSE
