CONSTANTS W = 2
 R = 2
 RECORD = TRUE
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
