SPECIFICATION Spec
CONSTANTS Ms = {"d11", "d12", "d21", "d31"}
INVARIANTS Partitions Coarse Exact Finished Unique
CHECK_DEADLOCK FALSE
