SPECIFICATION Spec
CONSTANTS Total = 7 Room = 3
INVARIANTS NothingLost Complete
PROPERTIES Ends
CHECK_DEADLOCK FALSE
