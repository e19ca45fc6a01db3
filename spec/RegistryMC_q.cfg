SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxOps = 5
  Fault = "none"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
