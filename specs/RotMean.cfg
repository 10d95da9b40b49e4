SPECIFICATION Spec
CONSTANTS W = {0, 1, 4} Max = 2
INVARIANTS SignFree Bounded Alone Heavy
CHECK_DEADLOCK FALSE
