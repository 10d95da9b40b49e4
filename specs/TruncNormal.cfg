CONSTANTS BOUND = 4
 REFLECT = TRUE
INIT Init
NEXT Next
INVARIANTS InBounds Reachable
CHECK_DEADLOCK FALSE
