SPECIFICATION Spec
CONSTANTS Ms = {"d11", "d22", "n11", "n12", "n21p", "n31"} Its = 1 Lim = 7
INVARIANTS InOrder Height
CHECK_DEADLOCK FALSE
