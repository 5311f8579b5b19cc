SPECIFICATION Spec
CONSTANTS
 TS = {1, 2, 4}
 XYS = {1, 2, 4}
 FS = {0, 1, 3}
 TESTT = TRUE
 TESTB = TRUE
 TESTF = TRUE
INVARIANT Fits
CHECK_DEADLOCK FALSE
