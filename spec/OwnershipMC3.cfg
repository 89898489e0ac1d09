SPECIFICATION Spec
VIEW View
INVARIANT Inv
PROPERTY Obeys
CHECK_DEADLOCK FALSE
CONSTANT N = 3
