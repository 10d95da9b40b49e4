INIT Init
NEXT Next
CONSTANT K = 1
INVARIANTS Splits Right Idempotent Additive Nearest Pythagoras Least
CHECK_DEADLOCK FALSE
