SPECIFICATION Spec
CONSTANTS Command = "binop" Emit = FALSE
INVARIANTS Admitted Rejected
CHECK_DEADLOCK FALSE
