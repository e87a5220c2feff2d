SPECIFICATION Spec
CONSTANTS Most = 9 Depth = 4 Emit = TRUE
INVARIANTS Told
CHECK_DEADLOCK FALSE
