SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2, t3}
  Depth = 2
  Rounds = 1
INVARIANTS Mutex OwnerOK OwnState
PROPERTY Stable
CHECK_DEADLOCK TRUE
