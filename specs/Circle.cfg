SPECIFICATION Spec
CONSTANTS H = 8 Turns = 24
INVARIANTS Wrapped Arc Inside Middle Triangle
CHECK_DEADLOCK FALSE
