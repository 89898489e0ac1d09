SPECIFICATION Spec
CONSTANTS
  Base = 3
  N = 2
  W = 2
  Calls = 3
  Whole = FALSE
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
