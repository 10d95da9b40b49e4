SPECIFICATION Spec
CONSTANTS Shift = 2 Steps = 4
INVARIANTS Rigid Inv Homo AdjMul Turns Reach Rational
CHECK_DEADLOCK FALSE
