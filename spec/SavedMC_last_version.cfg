SPECIFICATION Spec
CONSTANTS
  Scores = {1, 2, 3}
  MaxOps = 4
  Fault = "last_version"
  Generate = FALSE
INVARIANTS Accepted OnlyBetter
CHECK_DEADLOCK FALSE
