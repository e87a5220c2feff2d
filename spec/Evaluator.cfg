SPECIFICATION Spec
CONSTANTS Ms = {"d21", "n11", "n21p"} Depth = 3 Span = 2 Width = 4 Emit = FALSE
INVARIANTS DeadIffForeign Meaning Verdict Single Closed
PROPERTIES Apart Final
CHECK_DEADLOCK FALSE
