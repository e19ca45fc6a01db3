SPECIFICATION Spec
CONSTANTS
  Seeds = 2
  Timeout = 4
  Steps = 4
  Thinks = {0, 1}
  Times = {1, 4}
  Generate = TRUE
INVARIANTS Accepted Gen
CHECK_DEADLOCK FALSE
