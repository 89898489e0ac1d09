SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
VIEW MCView
INVARIANT Inv
PROPERTY Obeys
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
