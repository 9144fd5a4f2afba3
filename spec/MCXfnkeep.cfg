SPECIFICATION Spec
CONSTANTS
 Broken = "keep"
 MaxSize = 8
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
