SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxD = 3
  Steps = TRUE
VIEW View
INVARIANT Inv
CHECK_DEADLOCK TRUE
