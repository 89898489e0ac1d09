SPECIFICATION Spec
CONSTANTS
  Cap = 3
  Max = 4
  Keys = 3
VIEW View
INVARIANT Inv
PROPERTY Obeys
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
