SPECIFICATION Spec
CONSTANTS MaxSrc = 4 MaxBuf = 5
INVARIANT InBuffer Right
CHECK_DEADLOCK FALSE
