SPECIFICATION Spec
VIEW View
INVARIANTS Inv Concat
ACTION_CONSTRAINT Emit
CONSTANT Ws = {0, 1, 6}
CHECK_DEADLOCK FALSE
