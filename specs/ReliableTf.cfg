CONSTANTS PAIRS = {1, 2}
 VALS = {1, 2}
 MAXOPS = 3
 NET = 2
INIT Init
NEXT Next
INVARIANTS OneSender Wanted Others Got Clean
CHECK_DEADLOCK FALSE
