SPECIFICATION Spec
CONSTANTS
  Scores = {1, 2, 3}
  MaxOps = 5
  Fault = "none"
  Generate = FALSE
INVARIANTS Accepted OnlyBetter
CHECK_DEADLOCK FALSE
