SPECIFICATION Spec
CONSTANTS NN = 4 MarkStart = TRUE
INVARIANT Right
