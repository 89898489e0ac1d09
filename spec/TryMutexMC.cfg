SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxD = 3
  Steps = FALSE
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
