SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Files = 2
  MaxCalls = 3
  MaxOps = 0
  Fault = "marked"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
