SPECIFICATION Spec
CONSTANTS MaxN = 4 Vals = {0, 1, 2, 5} Coeffs = {0, 1, 2}
INVARIANT Inv
CHECK_DEADLOCK FALSE
