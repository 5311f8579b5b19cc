CONSTANTS
  Max = 7
  Parts = 3
  Objects = {"a", "b"}
  Refusals = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT NothingLost
INVARIANT OneOwner
INVARIANT CanEnd
PROPERTY Refines
