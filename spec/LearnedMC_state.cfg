SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Fault = "state"
  Generate = FALSE
INVARIANTS NeverNoticed
CHECK_DEADLOCK FALSE
