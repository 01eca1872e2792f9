SPECIFICATION Spec
ACTION_CONSTRAINT Edges
INVARIANT Union_
INVARIANT Parts
INVARIANT SameElements
INVARIANT Points_
INVARIANT Gather
INVARIANT Stacked
INVARIANT Rows_
INVARIANT Unknown_
CHECK_DEADLOCK FALSE
