SPECIFICATION Spec
CONSTANTS Ms = {"n22", "d31", "d12", "n21p"} Its = 2 Lim = 6
INVARIANTS InOrder Height
CHECK_DEADLOCK FALSE
