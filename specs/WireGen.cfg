SPECIFICATION Spec
CONSTANTS MaxInt = 1 MaxLen = 2 MaxWrites = 6 Junk = 1 EmitOn = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
