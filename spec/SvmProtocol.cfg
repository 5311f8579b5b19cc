SPECIFICATION TSpec
CONSTANTS
  Protocol = TRUE
  Numbers = FALSE
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
