SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxOps = 5
  Fault = "overwrite"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
