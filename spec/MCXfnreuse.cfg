SPECIFICATION Spec
CONSTANTS
 Broken = "reuse"
 MaxSize = 8
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
