SPECIFICATION Spec
CONSTANTS Command = "test" Emit = FALSE
INVARIANTS Admitted Rejected
CHECK_DEADLOCK FALSE
