SPECIFICATION Spec
CONSTANTS W = 3
 H = 3
 Top = 1
INVARIANT Right
CHECK_DEADLOCK FALSE
