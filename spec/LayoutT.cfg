SPECIFICATION Spec
CONSTANTS Mode = "layout" Which = {"d1", "d2", "n1", "n2", "n3"} Odd = 3 Emit = FALSE
INVARIANTS Right
CHECK_DEADLOCK FALSE
