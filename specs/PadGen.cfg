CONSTANT N = 6
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
