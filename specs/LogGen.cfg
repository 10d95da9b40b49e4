CONSTANTS SLOTS = {1, 2, 3}
 FILES = {1, 2}
 STEPS = 14
 APPEND = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
