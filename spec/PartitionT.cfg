SPECIFICATION Spec
CONSTANTS Ms = {"d22", "d31", "d41"}
INVARIANTS Partitions Coarse Exact Finished Unique
CHECK_DEADLOCK FALSE
