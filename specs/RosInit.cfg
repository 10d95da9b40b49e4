CONSTANTS DEPTH = 2
 MAXRUNS = 3
INIT Init
NEXT Next
INVARIANTS Balanced Once Emit
CHECK_DEADLOCK FALSE
