SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxOps = 4
  Fault = "none"
  Generate = FALSE
INVARIANTS Accepted ReadBack
CHECK_DEADLOCK FALSE
