SPECIFICATION Spec
INVARIANT Inv
PROPERTY Ends
