SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxOps = 3
  Fault = "transposed"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
