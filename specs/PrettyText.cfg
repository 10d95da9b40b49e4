SPECIFICATION Spec
CONSTANTS Leaves = {1, 2}
 MaxLen = 2
INVARIANT Back
CHECK_DEADLOCK FALSE
