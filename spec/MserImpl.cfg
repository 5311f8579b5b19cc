SPECIFICATION Spec
CONSTANTS Shapes <- TheShapes  Levels = {0, 1, 2}
INVARIANTS Right Monotone
CHECK_DEADLOCK FALSE
