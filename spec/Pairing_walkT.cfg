SPECIFICATION Spec
CONSTANTS As = {"d22", "n22"} Bs = {"d22", "n12"} How = "walk" Fs = {"symdiff"}
INVARIANTS Bounded WalkRight
CHECK_DEADLOCK FALSE
