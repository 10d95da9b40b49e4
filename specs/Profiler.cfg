CONSTANTS PNAMES = {"a", "b"}
 STEPS = 4
INIT Init
NEXT Next
INVARIANTS Exact Monotone
CHECK_DEADLOCK FALSE
