CONSTANT Scratch = {"kmeans", "gmm"}
SPECIFICATION TSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
