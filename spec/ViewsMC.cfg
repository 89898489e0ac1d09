SPECIFICATION Spec
CONSTANTS
  W = 64
  M = 7
VIEW View
INVARIANT Inv
PROPERTY Obeys
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
