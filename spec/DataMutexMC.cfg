SPECIFICATION Spec
VIEW View
INVARIANTS Inv Exclusive
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
