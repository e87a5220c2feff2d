SPECIFICATION Spec
CONSTANTS As = {"d12", "d22", "n12", "n21p"} Bs = {"d12", "d31", "n11", "n12"} How = "walk" Fs = {"symdiff"}
INVARIANTS Bounded WalkRight
CHECK_DEADLOCK FALSE
