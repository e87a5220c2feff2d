SPECIFICATION Spec
CONSTANTS Most = 3 Depth = 0 Emit = FALSE
INVARIANTS Admitted OnlyThat Agree Apart Deduced
PROPERTIES Steady Buried Others
CHECK_DEADLOCK FALSE
