CONSTANTS KEYS = {1, 2}
 ROUNDS = 2
INIT Init
NEXT Next
INVARIANTS Emit Shape Merged Leaves Kept
CHECK_DEADLOCK FALSE
