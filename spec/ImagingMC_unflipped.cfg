SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxOps = 3
  Fault = "unflipped"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
