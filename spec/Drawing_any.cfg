CONSTANTS
  Free = TRUE
  Of = {"d11", "d21", "n11", "d22"}
  Kind = "paper"
  Marks = {" ", ">"}
SPECIFICATION Spec
INVARIANTS Apart Pictured
PROPERTIES Each Shorter Done
CHECK_DEADLOCK FALSE
