SPECIFICATION Spec
CONSTANTS
  N = 3
  K = 3
  VALS = {0, 1, 5, 6, 9, 12}
  LIMIT = 3
INVARIANTS Bounds NearestNow FixedPoint
CHECK_DEADLOCK FALSE
