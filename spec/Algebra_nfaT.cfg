SPECIFICATION Spec
CONSTANTS As = {"n11", "n12", "n21"} Bs = {"n11", "d12", "n21p"} Lim = 4
INVARIANTS WellFormed Membership Foreign Closures Reached Sets_ Empty Equivalents DeadOnes Infinite FirstOnes Compare Combination
CHECK_DEADLOCK FALSE
