CONSTANTS PUBS = {1, 2}
 TRIES = 5
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
