CONSTANTS VALS = {0, 1, 2}
 MAXLEN = 5
 MAXN = 4
INIT Init
NEXT NoNext
INVARIANTS Emit
CHECK_DEADLOCK FALSE
