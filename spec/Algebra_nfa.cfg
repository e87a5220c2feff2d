SPECIFICATION Spec
CONSTANTS As = {"n11", "n12", "n21p"} Bs = {"n11", "d12"} Lim = 4
INVARIANTS WellFormed Membership Foreign Closures Reached Sets_ Empty Equivalents DeadOnes Infinite FirstOnes Compare Combination
CHECK_DEADLOCK FALSE
