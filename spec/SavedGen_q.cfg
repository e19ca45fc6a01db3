SPECIFICATION Spec
CONSTANTS
  Scores = {1, 2}
  MaxOps = 4
  Fault = "none"
  Generate = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
