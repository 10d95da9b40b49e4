CONSTANTS PNAMES = {"a", "b"}
 STEPS = 5
INIT Init
NEXT Next
INVARIANTS Exact Monotone
CHECK_DEADLOCK FALSE
