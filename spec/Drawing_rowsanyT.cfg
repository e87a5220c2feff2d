CONSTANTS
  Free = TRUE
  Of = {"d31", "n11", "d22"}
  Kind = "rows"
  Marks = {" ", "-", "|", ">", "<", "z"}
SPECIFICATION Spec
INVARIANTS Apart Written
PROPERTIES Each Shorter Done
CHECK_DEADLOCK FALSE
