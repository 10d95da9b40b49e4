CONSTANTS SLOTS = {1, 2, 3}
 STEPS = 14
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
