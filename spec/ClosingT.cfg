SPECIFICATION Spec
CONSTANT Of = {"n11", "n21", "e3", "e4"}
INVARIANTS Sound Found Answered Said
PROPERTIES Grows Stops
CHECK_DEADLOCK FALSE
