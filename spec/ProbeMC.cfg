SPECIFICATION Spec
INVARIANT Rounds
INVARIANT Missed
INVARIANT Folded
INVARIANT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
