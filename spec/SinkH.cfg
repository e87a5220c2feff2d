SPECIFICATION Spec
CONSTANTS Depth = 2 Emit = TRUE
INVARIANTS Told
CHECK_DEADLOCK FALSE
