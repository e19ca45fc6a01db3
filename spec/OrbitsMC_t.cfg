SPECIFICATION Spec
CONSTANTS
  R = 3
  Depth = 2
  Generate = FALSE
INVARIANTS Accepted Equivariant SameGeometry OrbitSize
CHECK_DEADLOCK FALSE
