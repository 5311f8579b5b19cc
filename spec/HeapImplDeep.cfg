SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2, 3, 4, 5, 6}
  Prios = {0, 1, 2}
INVARIANTS HeapOrder NoDup
PROPERTY Refines
CHECK_DEADLOCK FALSE
