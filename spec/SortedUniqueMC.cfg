SPECIFICATION Spec
CONSTANTS
  Keys = {3, 12, 15, 21}
  MaxLen = 4
  Map = TRUE
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
