SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Leaks = {"none", "carry", "global", "observed", "shared", "unseeded"}
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
