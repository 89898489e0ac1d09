SPECIFICATION Spec
CONSTANTS
  W = 16
  Sz = 5
INVARIANT Inv
CHECK_DEADLOCK FALSE
