CONSTANTS
  Free = FALSE
  Of = {"d11", "d21", "d31", "n12"}
  Kind = "rows"
  Marks = {" ", ">"}
SPECIFICATION Spec
INVARIANTS Apart Written
PROPERTIES Each Shorter Done
CHECK_DEADLOCK FALSE
