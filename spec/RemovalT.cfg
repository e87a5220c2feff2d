SPECIFICATION Spec
CONSTANTS Ms = {"n22e", "n31e"} Bs = {"n11"} Goals = {"eps", "optimise", "reach", "union"}
INVARIANTS OnlyReached ReachRight EpsRight OptRight UnionRight DeadAreDead
CHECK_DEADLOCK FALSE
