SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Fault = "none"
  Generate = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
