SPECIFICATION Spec
VIEW View
INVARIANT Sound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
