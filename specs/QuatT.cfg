SPECIFICATION Spec
CONSTANTS K = 2
 Steps = 0
INVARIANTS Multiplies Matrix Orthogonal Inverts Antipode Half Composes
CHECK_DEADLOCK FALSE
