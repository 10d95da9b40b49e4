SPECIFICATION Spec
CONSTANTS V = {0, 1, 3, 7} W = {0, 1, 3} Max = 4
INVARIANTS Mean Between Total
CHECK_DEADLOCK FALSE
