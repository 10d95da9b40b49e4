SPECIFICATION Spec
CONSTANTS MaxInt = 1 MaxLen = 2 MaxWrites = 2 Junk = 1 EmitOn = FALSE
INVARIANTS Restored Framed
CHECK_DEADLOCK FALSE
