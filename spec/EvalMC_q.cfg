SPECIFICATION Spec
CONSTANTS
  Seeds = 2
  Timeout = 3
  Steps = 3
  Thinks = {0, 1}
  Times = {1, 2}
  Generate = FALSE
INVARIANTS Accepted EndAccepted InTime
CHECK_DEADLOCK FALSE
