SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxOps = 3
  Fault = "upside_down"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
