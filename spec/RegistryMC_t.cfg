SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxOps = 7
  Fault = "none"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
