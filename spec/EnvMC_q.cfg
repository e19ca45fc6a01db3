SPECIFICATION Spec
CONSTANTS
  Depth = 6
  Limits = {0, 1, 2, 3}
  Generate = FALSE
INVARIANTS Accepted LimitRespected EndsAtLimit FirstIffStart
PROPERTIES Protocol
CHECK_DEADLOCK FALSE
