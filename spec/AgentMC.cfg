SPECIFICATION Spec
VIEW View
INVARIANT Bounded Remembered
PROPERTY Allowed
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
