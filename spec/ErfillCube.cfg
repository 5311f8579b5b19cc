SPECIFICATION Spec
CONSTANTS Shape = 2
 Top = 1
INVARIANTS Fits Once Full
CHECK_DEADLOCK FALSE
