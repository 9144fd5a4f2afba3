SPECIFICATION Spec
PROPERTY Fine
CHECK_DEADLOCK FALSE
