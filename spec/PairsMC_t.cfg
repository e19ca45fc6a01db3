SPECIFICATION Spec
CONSTANTS
  Depth = 7
  Generate = FALSE
INVARIANTS Accepted Counts Once
CHECK_DEADLOCK FALSE
