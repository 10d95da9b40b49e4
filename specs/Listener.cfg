CONSTANTS W = 2
 R = 2
 RECORD = FALSE
SPECIFICATION Fair
INVARIANTS Fresh Monotone Some InOrder Excl Latest
PROPERTIES Ends
CHECK_DEADLOCK FALSE
