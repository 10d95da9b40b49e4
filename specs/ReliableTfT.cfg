CONSTANTS PAIRS = {1, 2}
 VALS = {1, 2}
 MAXOPS = 5
 NET = 2
INIT Init
NEXT Next
INVARIANTS OneSender Wanted Others Got Clean
CHECK_DEADLOCK FALSE
