SPECIFICATION Spec
CONSTANTS
  NV = 4
  VALS = {1, 2}
  INF = 9
INVARIANTS Books NullsAside AllMerged WhichFits
CHECK_DEADLOCK FALSE
