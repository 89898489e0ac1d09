SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxCap = 5
VIEW View
INVARIANT Inv
PROPERTIES Obeys
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
