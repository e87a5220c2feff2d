SPECIFICATION Spec
CONSTANTS Most = 9 Depth = 5 Emit = TRUE
INVARIANTS Told
CHECK_DEADLOCK FALSE
