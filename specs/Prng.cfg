CONSTANTS SEEDS = {0, 7}
 STEPS = 3
INIT Init
NEXT Next
INVARIANTS Functional StateFollows Spread
CHECK_DEADLOCK FALSE
