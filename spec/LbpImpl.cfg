SPECIFICATION Spec
INVARIANTS Built Fresh Facts
PROPERTY Ends
CHECK_DEADLOCK FALSE
