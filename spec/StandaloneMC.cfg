SPECIFICATION Spec
CONSTANTS
  Hs = {1, 2, 3}
  Len0 = 3
  NUnits = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
