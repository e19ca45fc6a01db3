SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Starts <- StartsSet
  Generate = FALSE
INVARIANTS Accepted CentreIsHalf CornersAreUnit Inverse
PROPERTIES ZoomScales
CHECK_DEADLOCK FALSE
