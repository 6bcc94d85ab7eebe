SPECIFICATION Spec
VIEW View
INVARIANT Holds
INVARIANT Inv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
