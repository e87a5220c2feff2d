SPECIFICATION Spec
CONSTANTS Command = "test" Emit = TRUE
INVARIANTS Told
CHECK_DEADLOCK FALSE
