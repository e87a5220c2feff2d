CONSTANTS
  Free = FALSE
  Of = {"d11", "d31", "n12", "n21", "d41"}
  Kind = "paper"
  Marks = {" ", "-", "|", ">", "<", "z"}
SPECIFICATION Spec
INVARIANTS Apart Pictured
PROPERTIES Each Shorter Done
CHECK_DEADLOCK FALSE
