SPECIFICATION Spec
CONSTANTS NN = 5 MarkStart = TRUE
INVARIANT Right
