CONSTANTS
  N = 4
  Scores = 2
SPECIFICATION Spec
INVARIANTS IsRanking Counts Area Equal SamePrior
CHECK_DEADLOCK FALSE
