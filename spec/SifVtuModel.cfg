SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Edges
INVARIANT Legal
INVARIANT Refers
INVARIANT KeepsNodes
INVARIANT KeepsData
PROPERTY Refused
PROPERTY Grows
PROPERTY Final
CHECK_DEADLOCK FALSE
