SPECIFICATION Spec
VIEW View
INVARIANT Inv
PROPERTY EvictWorst
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
