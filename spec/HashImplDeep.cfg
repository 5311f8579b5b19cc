SPECIFICATION Spec
CONSTANTS K = 4
 E = 0
 Labels = {1, 2, 3, 4, 5, 6}
 Limit = 2
CONSTRAINT Bound
INVARIANT Exact
CHECK_DEADLOCK FALSE
