SPECIFICATION Spec
CONSTANTS
  XS = 2
  LAMBDAS = {"0.125"}
  WEIGHTS = {1, 2}
  LOSSES = {"hinge", "hinge2", "l1", "l2"}
  BS = {0, 2}
  MAXT = 6
INVARIANTS Ascent Factored Epochs Bookkeeping
CHECK_DEADLOCK FALSE
