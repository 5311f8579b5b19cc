SPECIFICATION Spec
CONSTANTS MaxN = 6 Vals = {0, 1, 3}
INVARIANTS InBounds Right Identities
CHECK_DEADLOCK FALSE
