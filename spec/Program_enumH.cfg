SPECIFICATION Spec
CONSTANTS Command = "enum" Emit = TRUE
INVARIANTS Told
CHECK_DEADLOCK FALSE
