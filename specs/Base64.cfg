SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS Agrees Lossless
CHECK_DEADLOCK FALSE
