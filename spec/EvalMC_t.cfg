SPECIFICATION Spec
CONSTANTS
  Seeds = 2
  Timeout = 4
  Steps = 4
  Thinks = {0, 1, 2}
  Times = {1, 2}
  Generate = FALSE
INVARIANTS Accepted EndAccepted InTime
CHECK_DEADLOCK FALSE
