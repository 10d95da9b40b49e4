SPECIFICATION Spec
CONSTANT D = 400
INVARIANTS InRange Ends Landmarks Mirror
PROPERTIES Smooth Redder
CHECK_DEADLOCK FALSE
