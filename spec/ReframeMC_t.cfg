SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxMoves = 3
  Far = 3
  Generate = FALSE
INVARIANTS Accepted Consistent
CHECK_DEADLOCK FALSE
