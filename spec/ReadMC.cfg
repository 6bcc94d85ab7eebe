SPECIFICATION Spec
INVARIANT RightColumns
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
