SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxOps = 5
  Fault = "cached"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
