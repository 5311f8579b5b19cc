SPECIFICATION Spec
CONSTANT MaxTail = 6
INVARIANT Agrees
CHECK_DEADLOCK FALSE
