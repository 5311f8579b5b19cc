SPECIFICATION Spec
CONSTANTS MaxH = 4 MaxF = 5
INVARIANT Inv
CHECK_DEADLOCK FALSE
