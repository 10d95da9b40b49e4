SPECIFICATION Spec
CONSTANTS NMax = 4 DMax = 2 KMax = 4 T = 2
INVARIANTS Right Sharp
CHECK_DEADLOCK FALSE
