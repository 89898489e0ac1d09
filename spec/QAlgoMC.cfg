SPECIFICATION Spec
CONSTANTS
  MaxL = 4
  Keys = {0, 1, 2}
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
