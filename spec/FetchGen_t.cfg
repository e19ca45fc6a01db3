SPECIFICATION Spec
CONSTANTS
  Procs = {1}
  Files = 1
  MaxCalls = 1
  MaxOps = 3
  Fault = "none"
  Generate = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
