SPECIFICATION Spec
CONSTANT N = 5
INVARIANT Lexicographic
CHECK_DEADLOCK FALSE
