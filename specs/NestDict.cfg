CONSTANTS KEYS = {1, 2}
 ROUNDS = 1
INIT Init
NEXT Next
INVARIANTS Shape Merged Leaves Kept
CHECK_DEADLOCK FALSE
