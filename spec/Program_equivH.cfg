SPECIFICATION Spec
CONSTANTS Command = "equiv" Emit = TRUE
INVARIANTS Told
CHECK_DEADLOCK FALSE
