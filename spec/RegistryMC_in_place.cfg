SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxOps = 5
  Fault = "in_place"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
