SPECIFICATION Spec
CONSTANTS
  Goals = {0, 3, 7, 10}
  Radii = {14200, 200000}
  Points = {1, 3}
  Generate = TRUE
INVARIANTS Accepted Gen
CHECK_DEADLOCK FALSE
