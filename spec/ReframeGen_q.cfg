SPECIFICATION Spec
CONSTANTS
  N = 16
  MaxMoves = 2
  Far = 9
  Generate = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
