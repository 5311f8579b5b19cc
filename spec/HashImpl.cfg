SPECIFICATION Spec
CONSTANTS K = 3
 E = 1
 Labels = {1, 2, 3, 4, 5}
 Limit = 1
CONSTRAINT Bound
INVARIANT Exact
CHECK_DEADLOCK FALSE
