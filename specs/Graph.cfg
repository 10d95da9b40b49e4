SPECIFICATION Spec
CONSTANTS MaxNodes = 3  Depth = 4  Weights = {1, 2}  History = FALSE
INVARIANT AlwaysLinked
PROPERTY OnlyGrows
