CONSTANT N = 9
INIT Init
NEXT Next
INVARIANTS Rightly Prompt
CHECK_DEADLOCK FALSE
