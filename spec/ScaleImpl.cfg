SPECIFICATION Spec
CONSTANTS
  MaxSize = 4
  MaxOctave = 2
  MaxRes = 2
  MaxSub = 1
INVARIANTS NoOverflow Faithful
PROPERTY Terminates
CHECK_DEADLOCK FALSE
