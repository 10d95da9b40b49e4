CONSTANT N = 7
INIT Init
NEXT Next
INVARIANTS Rightly Prompt
CHECK_DEADLOCK FALSE
