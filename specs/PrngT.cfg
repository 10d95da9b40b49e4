CONSTANTS SEEDS = {0, 7}
 STEPS = 4
INIT Init
NEXT Next
INVARIANTS Functional StateFollows Spread
CHECK_DEADLOCK FALSE
