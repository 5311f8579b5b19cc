SPECIFICATION Spec
CONSTANTS Shape = 1
 Top = 1
INVARIANTS Fits Once Full
CHECK_DEADLOCK FALSE
