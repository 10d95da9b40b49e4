SPECIFICATION Spec
CONSTANTS K = 1
 Steps = 2
INVARIANTS Multiplies Matrix Orthogonal Inverts Antipode Half Composes
CHECK_DEADLOCK FALSE
