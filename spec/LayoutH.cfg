SPECIFICATION Spec
CONSTANTS Mode = "layout" Which = {"d1", "n1", "n2"} Odd = 2 Emit = TRUE
INVARIANTS Told
CHECK_DEADLOCK FALSE
