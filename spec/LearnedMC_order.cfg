SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Fault = "order"
  Generate = FALSE
INVARIANTS NeverNoticed
CHECK_DEADLOCK FALSE
