SPECIFICATION Spec
CONSTANTS
  MaxLen = 1
  Two = TRUE
VIEW MCView
INVARIANT Inv
PROPERTY Obeys
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
