SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 3
  LABELS = {0, 1}
  MAXMIN = 4
INVARIANTS Complete Explained Fragments
CHECK_DEADLOCK FALSE
