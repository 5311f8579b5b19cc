CONSTANTS
  Images = {"a", "b"}
  Options = {1, 2}
  N = 4
  Strengths = {1, 2, 3}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Fits
INVARIANT Current
INVARIANT Emptied
INVARIANT NoWeakerNeighbour
INVARIANT OnlyOverlapped
INVARIANT StrongestStays
INVARIANT Settled
