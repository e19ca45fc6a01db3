SPECIFICATION Spec
CONSTANTS
  Goals = {0,1,2,3,4,5,6,7,8,9,10,11}
  Radii = {0, 7000, 14200, 100000, 200000}
  Points = {1, 3}
  Generate = TRUE
INVARIANTS Accepted Gen
CHECK_DEADLOCK FALSE
