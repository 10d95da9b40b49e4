CONSTANTS CHARS = {48, 53, 46, 107, 77, 71, 98, 32, 45}
 MAXLEN = 5
INIT Init
NEXT Next
INVARIANTS Recognised Value
CHECK_DEADLOCK FALSE
