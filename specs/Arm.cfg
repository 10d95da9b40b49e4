SPECIFICATION Spec
CONSTANTS Steps = 3
 Which = {1, 2, 3, 4}
INVARIANTS Rigid Straight
PROPERTIES Before Axis
CHECK_DEADLOCK FALSE
