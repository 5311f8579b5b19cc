SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2}
  Depth = 2
  Rounds = 2
INVARIANTS Mutex OwnerOK OwnState
PROPERTIES Stable AllDone
CHECK_DEADLOCK TRUE
