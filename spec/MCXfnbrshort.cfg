SPECIFICATION Spec
CONSTANTS
 Broken = "brshort"
 MaxSize = 8
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
