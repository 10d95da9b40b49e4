SPECIFICATION Spec
CONSTANTS H = 24 Turns = 100
INVARIANTS Wrapped Arc Inside Middle Triangle
CHECK_DEADLOCK FALSE
