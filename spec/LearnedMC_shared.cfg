SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Fault = "shared"
  Generate = FALSE
INVARIANTS NeverNoticed
CHECK_DEADLOCK FALSE
