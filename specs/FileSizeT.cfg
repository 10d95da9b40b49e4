CONSTANTS CHARS = {48, 49, 53, 46, 107, 77, 71, 98, 32}
 MAXLEN = 6
INIT Init
NEXT Next
INVARIANTS Recognised Value
CHECK_DEADLOCK FALSE
