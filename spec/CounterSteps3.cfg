SPECIFICATION Spec
CONSTANTS
  Base = 3
  N = 3
  W = 2
  Calls = 2
  Whole = FALSE
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
