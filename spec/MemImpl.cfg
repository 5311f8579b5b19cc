CONSTANTS
  Max = 6
  Parts = 3
  Objects = {"a", "b"}
  Refusals = 1
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT NothingLost
INVARIANT OneOwner
INVARIANT CanEnd
PROPERTY Refines
