CONSTANT MORE = 3
INIT Init
NEXT NoNext
INVARIANTS Emit
CHECK_DEADLOCK FALSE
