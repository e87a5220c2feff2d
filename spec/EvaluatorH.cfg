SPECIFICATION Spec
CONSTANTS Ms = {"one"} Depth = 3 Span = 2 Width = 5 Emit = TRUE
INVARIANTS Told
CHECK_DEADLOCK FALSE
