CONSTANTS
  Free = TRUE
  Of = {"d22", "n11", "n21"}
  Kind = "paper"
  Marks = {" ", "-", "|", ">", "<", "z"}
SPECIFICATION Spec
INVARIANTS Apart Pictured
PROPERTIES Each Shorter Done
CHECK_DEADLOCK FALSE
