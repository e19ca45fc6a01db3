SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxOps = 3
  Fault = "corner"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
