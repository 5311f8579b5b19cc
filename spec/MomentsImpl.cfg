SPECIFICATION Spec
CONSTANTS
  N = 3
  THREADS = {1, 2}
  VALS = {0, 1, 4}
  MASSES = {0, 1, 3}
INVARIANT Correct
CHECK_DEADLOCK FALSE
