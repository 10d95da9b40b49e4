INIT Init
NEXT Next
CONSTANT K = 2
INVARIANTS Splits Right Idempotent Additive Nearest Pythagoras Least
CHECK_DEADLOCK FALSE
