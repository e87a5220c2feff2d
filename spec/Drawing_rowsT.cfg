CONSTANTS
  Free = FALSE
  Of = {"d31", "n12", "n21"}
  Kind = "rows"
  Marks = {" ", "-", "|", ">", "<", "z"}
SPECIFICATION Spec
INVARIANTS Apart Written
PROPERTIES Each Shorter Done
CHECK_DEADLOCK FALSE
