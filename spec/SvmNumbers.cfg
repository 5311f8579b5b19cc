SPECIFICATION TSpec
CONSTANTS
  Protocol = FALSE
  Numbers = TRUE
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
