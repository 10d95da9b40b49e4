SPECIFICATION Spec
CONSTANTS MaxInt = 1 MaxLen = 1 MaxWrites = 4 Junk = 1 EmitOn = FALSE
INVARIANTS Restored Framed
CHECK_DEADLOCK FALSE
