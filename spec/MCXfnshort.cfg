SPECIFICATION Spec
CONSTANTS
 Broken = "short"
 MaxSize = 8
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
