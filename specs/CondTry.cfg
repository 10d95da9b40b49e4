INIT Init
NEXT Next
INVARIANTS Once Never Interrupts Values
CHECK_DEADLOCK FALSE
