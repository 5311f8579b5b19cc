CONSTANTS
  N = 3
  Scores = 3
SPECIFICATION Spec
INVARIANTS IsRanking Counts Area Equal SamePrior
CHECK_DEADLOCK FALSE
