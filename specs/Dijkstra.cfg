SPECIFICATION Spec
CONSTANTS NN = 3 Ws = {9, 0, 1, 3} Emits = FALSE
INVARIANT Certified
INVARIANT Exact
