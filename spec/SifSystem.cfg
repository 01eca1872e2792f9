SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Edges
INVARIANT Whole
INVARIANT Kinds
INVARIANT Apart
INVARIANT SeenIsStored
INVARIANT SameInTurn
PROPERTY Isolation
PROPERTY OpenKept
PROPERTY Frozen
PROPERTY NothingDone
PROPERTY AppendKeeps
PROPERTY Fresh
PROPERTY FailedAppend
PROPERTY FilesKept
CHECK_DEADLOCK FALSE
