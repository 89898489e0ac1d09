SPECIFICATION Spec
CONSTANTS
  Ls = 6
  Lp = 3
  Chars = {1, 2}
INVARIANT Inv
CHECK_DEADLOCK FALSE
