SPECIFICATION Spec
CONSTANTS Leaves = {1, 2}
 MaxLen = 3
INVARIANT Back
CHECK_DEADLOCK FALSE
