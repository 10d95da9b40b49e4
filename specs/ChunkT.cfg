CONSTANTS VALS = {0, 1}
 MAXLEN = 8
 MAXN = 5
INIT Init
NEXT Next
INVARIANTS NothingMore InOrder Backwards Rows Whole1
CHECK_DEADLOCK FALSE
