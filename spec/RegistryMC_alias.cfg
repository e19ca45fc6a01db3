SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxOps = 5
  Fault = "alias"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
