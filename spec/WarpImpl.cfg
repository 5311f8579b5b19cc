CONSTANTS
  Size = 6
  Steps = 3
SPECIFICATION Spec
INVARIANTS Inside Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
