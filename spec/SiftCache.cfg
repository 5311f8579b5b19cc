SPECIFICATION Spec
CONSTANTS
  IMAGES = {1, 2}
  O = 3
  FORGET = TRUE
INVARIANTS Current KeysCurrent
PROPERTY InOrder
CHECK_DEADLOCK FALSE
