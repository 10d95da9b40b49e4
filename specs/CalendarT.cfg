CONSTANT LAST = 200000
SPECIFICATION Spec
INVARIANT Met
PROPERTY Forward
CHECK_DEADLOCK FALSE
