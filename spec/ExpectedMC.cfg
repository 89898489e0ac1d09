SPECIFICATION Spec
VIEW View
INVARIANT Inv
PROPERTY Obeys
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
