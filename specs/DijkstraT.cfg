SPECIFICATION Spec
CONSTANTS NN = 4 Ws = {9, 1} Emits = FALSE
INVARIANT Certified
INVARIANT Exact
