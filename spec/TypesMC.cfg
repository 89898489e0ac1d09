SPECIFICATION Spec
CONSTANTS
  N = 9
INVARIANT Inv
CHECK_DEADLOCK FALSE
