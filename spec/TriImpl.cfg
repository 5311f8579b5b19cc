SPECIFICATION Spec
CONSTANTS MaxH = 5 MaxF = 6 Vals = {0, 1, 3}
INVARIANT Inv
CHECK_DEADLOCK FALSE
