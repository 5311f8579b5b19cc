SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 2}
  MaxLen = 5
INVARIANTS PermInv Separated DoneSorted
PROPERTY Terminates
CHECK_DEADLOCK FALSE
