CONSTANTS
  Free = FALSE
  Of = {"d11", "d31", "n11", "n12"}
  Kind = "paper"
  Marks = {" ", ">"}
SPECIFICATION Spec
INVARIANTS Apart Pictured
PROPERTIES Each Shorter Done
CHECK_DEADLOCK FALSE
