SPECIFICATION Spec
CONSTANTS NSlices = 3 MaxOps = 8 EmitOn = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
