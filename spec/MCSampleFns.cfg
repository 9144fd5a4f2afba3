SPECIFICATION Spec
CONSTANTS
 Broken = "no"
 MaxSize = 8
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
