SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxOps = 3
  Fault = "no_border"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
