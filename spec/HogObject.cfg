SPECIFICATION Spec
CONSTANTS
 IMAGES = {1, 2, 3}
 SHAPE = {1, 2}
 CLEARVOTES = TRUE
 CLEARNORMS = TRUE
INVARIANT Current
CHECK_DEADLOCK FALSE
