SPECIFICATION Spec
CONSTANTS V = {0, 1, 5, 7} W = {0, 1, 2, 3} Max = 5
INVARIANTS Mean Between Total
CHECK_DEADLOCK FALSE
