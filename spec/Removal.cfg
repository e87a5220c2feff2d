SPECIFICATION Spec
CONSTANTS Ms = {"n11", "n12", "n21"} Bs = {"n11"} Goals = {"eps", "optimise", "reach", "union"}
INVARIANTS OnlyReached ReachRight EpsRight OptRight UnionRight DeadAreDead
CHECK_DEADLOCK FALSE
