CONSTANTS
  Tasks = {1, 2}
  Garbage = {0, 5}
  Uses = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT SameAnswer
