SPECIFICATION Spec
CONSTANTS
  MaxN = 6
  Generate = FALSE
INVARIANTS Accepted Disjoint
CHECK_DEADLOCK FALSE
