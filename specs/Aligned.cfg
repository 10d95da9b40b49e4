SPECIFICATION Spec
CONSTANTS K = 2
 Steps = 3
INVARIANTS Ones Dots Sums
VIEW View
CHECK_DEADLOCK FALSE
