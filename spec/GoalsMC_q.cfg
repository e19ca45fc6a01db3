SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Generate = FALSE
INVARIANTS Accepted GoalOnSite
PROPERTIES GoalFixed
CHECK_DEADLOCK FALSE
