SPECIFICATION Spec
CONSTANTS
  MaxSize = 6
  MaxOctave = 2
  MaxRes = 2
  MaxSub = 2
INVARIANTS NoOverflow Faithful
CHECK_DEADLOCK FALSE
