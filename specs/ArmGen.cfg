CONSTANTS Steps = 2
 Which = {1, 2, 3, 4}
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
