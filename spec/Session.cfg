SPECIFICATION Spec
CONSTANTS Pool = {"0", "s_new", "p", "p,p"} Big = 4 Depth = 2 Emit = FALSE
INVARIANTS Unique
PROPERTIES Others
CHECK_DEADLOCK FALSE
