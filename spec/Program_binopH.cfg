SPECIFICATION Spec
CONSTANTS Command = "binop" Emit = TRUE
INVARIANTS Told
CHECK_DEADLOCK FALSE
