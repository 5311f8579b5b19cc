SPECIFICATION Spec
CONSTANTS
  N = 4
  K = 3
  VALS = {0, 1, 3, 7}
  ALG = "lloyd"
INVARIANTS AtNearest Fixed Terminates
PROPERTY Descent
CHECK_DEADLOCK FALSE
