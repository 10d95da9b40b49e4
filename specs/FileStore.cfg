SPECIFICATION Spec
CONSTANTS NSlices = 3 MaxOps = 5 EmitOn = FALSE
INVARIANTS NeverBadData Intact
CHECK_DEADLOCK FALSE
