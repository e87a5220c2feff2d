SPECIFICATION Spec
CONSTANTS As = {"d11", "d21", "d31", "d22"} Bs = {"d11", "d12", "d21"} Lim = 5
INVARIANTS WellFormed Membership Foreign Closures Reached Sets_ Empty Equivalents DeadOnes Infinite FirstOnes Compare Combination
CHECK_DEADLOCK FALSE
