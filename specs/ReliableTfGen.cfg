CONSTANTS PAIRS = {1, 2, 3}
 VALS = {1, 2, 3}
 MAXOPS = 6
 NET = 2
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
