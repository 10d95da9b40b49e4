CONSTANTS NBYTES = 2
 POSITIONS = {0, 1, 7, 8, 14, 15}
 STEPS = 12
INIT Init
NEXT Next
INVARIANTS Exact Bytes
CHECK_DEADLOCK FALSE
