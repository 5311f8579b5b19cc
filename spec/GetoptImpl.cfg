SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANT SameReports Lossless Final
PROPERTY Terminates
CHECK_DEADLOCK FALSE
