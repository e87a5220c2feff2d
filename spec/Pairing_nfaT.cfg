SPECIFICATION Spec
CONSTANTS As = {"n21"} Bs = {"n11", "n21p"} How = "nfa" Fs = {"union", "intersection"}
INVARIANTS Bounded NfaRight
CHECK_DEADLOCK FALSE
