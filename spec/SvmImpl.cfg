SPECIFICATION Spec
CONSTANTS
  XS = 1
  LAMBDAS = {"1", "0.125"}
  WEIGHTS = {1, 2}
  LOSSES = {"hinge", "hinge2", "l1", "l2"}
  BS = {0, 2}
  MAXT = 4
INVARIANTS Ascent Factored Epochs Bookkeeping
CHECK_DEADLOCK FALSE
