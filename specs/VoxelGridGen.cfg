SPECIFICATION Spec
CONSTANTS NX = 3 NY = 2 NZ = 2 Values = {1, 2} Depth = 9 Emits = TRUE
INVARIANT ReadsLast
INVARIANT Emit
