CONSTANTS KEYS = {1, 2, 3}
 VALS = {0, 1}
 LEN = 5
INIT Init
NEXT Next
INVARIANTS RoundTrip Unique
CHECK_DEADLOCK FALSE
