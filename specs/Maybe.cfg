CONSTANTS SLOTS = {1, 2}
 STEPS = 4
INIT Init
NEXT Next
INVARIANT Truthful
CHECK_DEADLOCK FALSE
