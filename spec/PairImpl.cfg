CONSTANTS
  Rows = 3
  Top = 1
SPECIFICATION Spec
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
