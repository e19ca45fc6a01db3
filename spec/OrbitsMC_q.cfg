SPECIFICATION Spec
CONSTANTS
  R = 2
  Depth = 1
  Generate = FALSE
INVARIANTS Accepted Equivariant SameGeometry OrbitSize
CHECK_DEADLOCK FALSE
