SPECIFICATION Spec
CONSTANTS Shift = 2 Steps = 7
INVARIANTS Rigid Inv Homo AdjMul Turns Reach Rational
CHECK_DEADLOCK FALSE
