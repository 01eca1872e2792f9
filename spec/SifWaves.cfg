SPECIFICATION Spec
ACTION_CONSTRAINT Edges
INVARIANT Responses
INVARIANT SectionRecords
INVARIANT PanelRecords
INVARIANT FluidRecords
INVARIANT Matrices
INVARIANT Axes
INVARIANT Domain_
INVARIANT Unknown
CHECK_DEADLOCK FALSE
