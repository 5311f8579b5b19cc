SPECIFICATION Spec
CONSTANTS K = 2
 E = 0
 Labels = {1, 2, 3, 4}
 Limit = 2
CONSTRAINT Bound
INVARIANT Exact
CHECK_DEADLOCK FALSE
