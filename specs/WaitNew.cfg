SPECIFICATION Spec
CONSTANTS M = 4
 Locked = TRUE
INVARIANTS NoClash Known
PROPERTIES Fresh Forward
CHECK_DEADLOCK FALSE
