SPECIFICATION Spec
CONSTANTS Bits = 16 Xs <- AllX
INVARIANTS Inv Fits Floor
PROPERTY Ends
CHECK_DEADLOCK FALSE
