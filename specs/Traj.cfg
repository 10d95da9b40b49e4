SPECIFICATION Spec
CONSTANTS T = 2
 L = 2
 Steps = 3
INVARIANTS Monotone Duration Associative
PROPERTIES Kept
CHECK_DEADLOCK FALSE
