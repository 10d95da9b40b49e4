SPECIFICATION Spec
CONSTANTS NMax = 5 DMax = 3 KMax = 5 T = 3
INVARIANTS Right Sharp
CHECK_DEADLOCK FALSE
