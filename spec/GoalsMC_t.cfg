SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Generate = FALSE
INVARIANTS Accepted GoalOnSite
PROPERTIES GoalFixed
CHECK_DEADLOCK FALSE
