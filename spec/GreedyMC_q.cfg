SPECIFICATION Spec
CONSTANTS
  Goals = {0, 2, 3, 7, 10}
  Radii = {14200, 200000}
  Points = {1, 3, 4}
  Generate = FALSE
INVARIANTS Accepted OrderFree Turns Selective
CHECK_DEADLOCK FALSE
