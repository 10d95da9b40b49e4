SPECIFICATION Spec
CONSTANTS MaxNodes = 3  Depth = 7  Weights = {1, 2}  History = TRUE
INVARIANT AlwaysLinked
INVARIANT Emit
