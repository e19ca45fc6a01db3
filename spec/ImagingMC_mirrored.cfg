SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxOps = 3
  Fault = "mirrored"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
