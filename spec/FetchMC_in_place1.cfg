SPECIFICATION Spec
CONSTANTS
  Procs = {1}
  Files = 2
  MaxCalls = 2
  MaxOps = 0
  Fault = "in_place"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
