SPECIFICATION Spec
CONSTANTS Command = "equiv" Emit = FALSE
INVARIANTS Admitted Rejected
CHECK_DEADLOCK FALSE
