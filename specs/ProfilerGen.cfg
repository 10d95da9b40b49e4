CONSTANTS PNAMES = {"a", "b", "c"}
 STEPS = 12
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
