CONSTANTS VALS = {0, 1}
 MAXLEN = 5
 MAXN = 4
INIT Init
NEXT Next
INVARIANTS NothingMore InOrder Backwards Rows Whole1
CHECK_DEADLOCK FALSE
