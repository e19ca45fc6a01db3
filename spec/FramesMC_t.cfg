SPECIFICATION Spec
CONSTANTS
  Depth = 6
  Starts <- StartsSet
  Generate = FALSE
INVARIANTS Accepted CentreIsHalf CornersAreUnit Inverse
PROPERTIES ZoomScales
CHECK_DEADLOCK FALSE
