SPECIFICATION Spec
CONSTANTS MaxLen = 6
INVARIANTS Agrees Lossless
CHECK_DEADLOCK FALSE
