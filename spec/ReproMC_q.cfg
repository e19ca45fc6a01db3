SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Leaks = {"none", "carry", "global", "observed", "shared", "unseeded"}
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
