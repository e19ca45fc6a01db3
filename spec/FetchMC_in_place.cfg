SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Files = 2
  MaxCalls = 3
  MaxOps = 0
  Fault = "in_place"
  Generate = FALSE
INVARIANTS NeverPartial
CHECK_DEADLOCK FALSE
