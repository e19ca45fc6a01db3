SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxOps = 3
  Fault = "none"
  Generate = FALSE
INVARIANTS Accepted ReadBack
CHECK_DEADLOCK FALSE
