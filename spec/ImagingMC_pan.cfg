SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxOps = 3
  Fault = "pan"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
