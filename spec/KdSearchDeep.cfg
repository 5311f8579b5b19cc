SPECIFICATION Spec
CONSTANTS N = 3 Grid = {0, 1, 3} QGrid = {0, 2, 4} Ks = {1, 2} Dists = {"l1", "l2"} Budgets = {0, 2} Trees = {1, 2}
INVARIANT BoundsSound AlwaysSound ExactAtEnd
CHECK_DEADLOCK FALSE
