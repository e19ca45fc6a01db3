SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Files = 2
  MaxCalls = 3
  MaxOps = 0
  Fault = "none"
  Generate = FALSE
INVARIANTS NeverPartial Accepted
CHECK_DEADLOCK FALSE
