SPECIFICATION Spec
VIEW TraceView
CHECK_DEADLOCK FALSE
INVARIANT HandlesInBounds
