SPECIFICATION Spec
CONSTANTS Depth = 3 Emit = FALSE
INVARIANTS Admitted Rejected Learnt
CHECK_DEADLOCK FALSE
