SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxCap = 5
  Configs = {10, 12, 20, 22, 23}
VIEW View
INVARIANT Inv
PROPERTIES Obeys OrderKept
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
