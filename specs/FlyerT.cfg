SPECIFICATION Spec
CONSTANTS
 Raw <- RawSet
 MaxRobots = 3
 MaxSteps = 5
INVARIANTS OneTurn Faithful Arrives Velocity
PROPERTIES Alone
CHECK_DEADLOCK FALSE
