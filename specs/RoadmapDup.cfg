SPECIFICATION Spec
CONSTANTS Pos = 3 MaxNodes = 3 K = 1 Dup = TRUE Asym = FALSE
INVARIANTS Sound NoLoops Weights Answers
PROPERTIES Judged SharpAdd
CHECK_DEADLOCK FALSE
