SPECIFICATION Spec
CONSTANTS Pool = {"0", "1", "s_new", "none", "p", "p,p"} Big = 4 Depth = 2 Emit = FALSE
INVARIANTS Unique
PROPERTIES Others
CHECK_DEADLOCK FALSE
