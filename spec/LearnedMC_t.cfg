SPECIFICATION Spec
CONSTANTS
  MaxOps = 7
  Fault = "none"
  Generate = FALSE
INVARIANTS Accepted Fresh1
CHECK_DEADLOCK FALSE
