SPECIFICATION Spec
CONSTANTS
  Base = 256
  N = 1
  W = 1
  Calls = 0
  Whole = TRUE
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
