SPECIFICATION Spec
ACTION_CONSTRAINT Edges
INVARIANT Carried
INVARIANT ByName
INVARIANT Only
INVARIANT Local
INVARIANT Compose
INVARIANT Placed
INVARIANT Twice
CHECK_DEADLOCK FALSE
