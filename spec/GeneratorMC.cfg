SPECIFICATION Spec
VIEW View
INVARIANTS Inv Once
PROPERTY Obeys
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
