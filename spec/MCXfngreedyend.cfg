SPECIFICATION Spec
CONSTANTS
 Broken = "greedyend"
 MaxSize = 8
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
