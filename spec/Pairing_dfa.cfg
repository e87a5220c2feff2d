SPECIFICATION Spec
CONSTANTS As = {"d21", "d22"} Bs = {"d12", "d21", "d31"} How = "dfa" Fs = {"union", "intersection", "difference", "symdiff"}
INVARIANTS Bounded DfaRight
CHECK_DEADLOCK FALSE
