CONSTANTS PUBS = {1, 2}
 TRIES = 5
INIT Init
NEXT Next
INVARIANTS Named Ok Prompt
CHECK_DEADLOCK FALSE
