SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Two = FALSE
VIEW MCView
INVARIANT Inv
PROPERTY Obeys
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
