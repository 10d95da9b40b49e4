CONSTANTS CHARS = {48, 57, 53, 46, 75, 109, 103, 98, 101, 44}
 MAXLEN = 5
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
