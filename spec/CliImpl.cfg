SPECIFICATION Spec
CONSTANTS
  N = 2
  Kinds = {out, frm, dsc}
INVARIANTS ExitTells GoodComplete SuccessMeansAll NothingOpen NoSurprise GoesOn
CHECK_DEADLOCK FALSE
