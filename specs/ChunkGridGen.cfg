SPECIFICATION Spec
CONSTANTS K = 2 C = 2 Lo = 5 Hi = 5 Values = {1, 2, 3} Depth = 8 Emits = TRUE
INVARIANT ReadsLast
INVARIANT Emit
