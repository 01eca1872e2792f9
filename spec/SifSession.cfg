SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Edges
INVARIANT Function
INVARIANT Formed
CHECK_DEADLOCK FALSE
