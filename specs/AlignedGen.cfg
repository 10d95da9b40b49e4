SPECIFICATION Spec
CONSTANTS K = 5
 Steps = 12
INVARIANTS Emit
CHECK_DEADLOCK FALSE
