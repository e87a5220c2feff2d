CONSTANTS
  Free = TRUE
  Of = {"d11", "d21", "n11"}
  Kind = "rows"
  Marks = {" ", ">"}
SPECIFICATION Spec
INVARIANTS Apart Written
PROPERTIES Each Shorter Done
CHECK_DEADLOCK FALSE
