SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Generate = FALSE
INVARIANTS Accepted Counts Once
CHECK_DEADLOCK FALSE
