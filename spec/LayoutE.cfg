SPECIFICATION Spec
CONSTANTS Mode = "edit" Which = {"d1", "d2", "n1", "n2", "n3"} Odd = 2 Emit = FALSE
INVARIANTS Judged
CHECK_DEADLOCK FALSE
