CONSTANTS CHARS = {48, 49, 53, 46, 107, 77, 71, 66, 98, 32, 45}
 MAXLEN = 4
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
