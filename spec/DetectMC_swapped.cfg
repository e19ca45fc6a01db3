SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxOps = 3
  Fault = "swapped"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
