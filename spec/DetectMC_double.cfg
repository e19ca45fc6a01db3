SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxOps = 3
  Fault = "double"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
