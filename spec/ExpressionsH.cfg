SPECIFICATION Spec
CONSTANTS Leaves = {"a", "|", "eps", "empty"} Ops = 5 Len_ = 3 Emit = TRUE
INVARIANTS Told
CHECK_DEADLOCK FALSE
