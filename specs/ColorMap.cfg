SPECIFICATION Spec
CONSTANT D = 40
INVARIANTS InRange Ends Landmarks Mirror
PROPERTIES Smooth Redder
CHECK_DEADLOCK FALSE
