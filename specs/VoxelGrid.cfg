SPECIFICATION Spec
CONSTANTS NX = 2 NY = 1 NZ = 1 Values = {1, 2} Depth = 3 Emits = FALSE
INVARIANT ReadsLast
INVARIANT NumberingIsBijection
INVARIANT CentreInCell
