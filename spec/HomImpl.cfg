CONSTANTS
  MinE = 2
  MaxE = 3
  Subs = 4
  Unit = 64
SPECIFICATION Spec
INVARIANTS InTable Brackets OutOfRange
PROPERTY Ends
CHECK_DEADLOCK FALSE
