SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Fault = "none"
  Generate = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
