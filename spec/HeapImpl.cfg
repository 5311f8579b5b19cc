SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2, 3, 4, 5}
  Prios = {0, 1}
INVARIANTS HeapOrder NoDup
PROPERTY Refines
CHECK_DEADLOCK FALSE
