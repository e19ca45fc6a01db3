SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Fault = "none"
  Generate = FALSE
INVARIANTS Accepted Fresh1
CHECK_DEADLOCK FALSE
