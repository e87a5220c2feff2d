SPECIFICATION Spec
CONSTANTS As = {"d22"} Bs = {"d22"} How = "dfa" Fs = {"union", "intersection", "difference", "symdiff"}
INVARIANTS Bounded DfaRight
CHECK_DEADLOCK FALSE
