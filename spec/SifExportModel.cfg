SPECIFICATION Spec
ACTION_CONSTRAINT Edges
INVARIANT Laws
INVARIANT OwnNodes
CHECK_DEADLOCK FALSE
