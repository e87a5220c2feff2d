SPECIFICATION Spec
CONSTANTS Command = "enum" Emit = FALSE
INVARIANTS Admitted Rejected
CHECK_DEADLOCK FALSE
