SPECIFICATION Spec
CONSTANTS
  MaxRuns = 2
  Fault = "none"
  Generate = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
