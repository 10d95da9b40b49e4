CONSTANT LAST = 24836
SPECIFICATION Spec
INVARIANT Met
PROPERTY Forward
CHECK_DEADLOCK FALSE
