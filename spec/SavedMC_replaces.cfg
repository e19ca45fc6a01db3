SPECIFICATION Spec
CONSTANTS
  Scores = {1, 2, 3}
  MaxOps = 4
  Fault = "replaces"
  Generate = FALSE
INVARIANTS Accepted OnlyBetter
CHECK_DEADLOCK FALSE
