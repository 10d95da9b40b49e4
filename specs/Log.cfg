CONSTANTS SLOTS = {1, 2}
 FILES = {1, 2}
 STEPS = 5
 APPEND = TRUE
INIT Init
NEXT Next
INVARIANT NothingLost
CHECK_DEADLOCK FALSE
