SPECIFICATION Spec
CONSTANTS
  Seeds = 2
  Timeout = 3
  Steps = 3
  Thinks = {0, 1}
  Times = {1, 3}
  Generate = TRUE
INVARIANTS Accepted Gen
CHECK_DEADLOCK FALSE
