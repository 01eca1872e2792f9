SPECIFICATION Spec
ACTION_CONSTRAINT Edges
INVARIANT PlaneAccepts
INVARIANT PlaneRejects
INVARIANT PlaneAxes
INVARIANT MisesAccepts
INVARIANT MisesRejects
INVARIANT MisesPrincipal
INVARIANT ThickAccepts
INVARIANT ThickPlane
INVARIANT OneExtreme
INVARIANT OnePlace
CHECK_DEADLOCK FALSE
