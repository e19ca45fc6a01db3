SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  Files = 2
  MaxCalls = 4
  MaxOps = 0
  Fault = "none"
  Generate = FALSE
INVARIANTS NeverPartial Accepted
CHECK_DEADLOCK FALSE
