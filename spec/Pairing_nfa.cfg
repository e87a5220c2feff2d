SPECIFICATION Spec
CONSTANTS As = {"n11", "n12", "n21p"} Bs = {"n12", "n21p"} How = "nfa" Fs = {"union", "intersection"}
INVARIANTS Bounded NfaRight
CHECK_DEADLOCK FALSE
