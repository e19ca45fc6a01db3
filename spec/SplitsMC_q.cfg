SPECIFICATION Spec
CONSTANTS
  MaxN = 5
  Generate = FALSE
INVARIANTS Accepted Disjoint
CHECK_DEADLOCK FALSE
