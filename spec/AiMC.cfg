SPECIFICATION Spec
INVARIANTS Holds Inv
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
