SPECIFICATION Spec
INVARIANT Inv
CONSTANTS B = 3 R = 25 K = 9
CHECK_DEADLOCK FALSE
