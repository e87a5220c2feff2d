SPECIFICATION Spec
CONSTANTS Pool = {"p"} Big = 9 Depth = 3 Emit = TRUE
INVARIANTS Told
CHECK_DEADLOCK FALSE
