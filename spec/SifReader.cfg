SPECIFICATION Spec
ACTION_CONSTRAINT Edges
INVARIANT Finds
INVARIANT Honest
INVARIANT Layout
INVARIANT Restricted
INVARIANT Inert
INVARIANT OneRow
INVARIANT Commute
PROPERTY Adds
CHECK_DEADLOCK FALSE
