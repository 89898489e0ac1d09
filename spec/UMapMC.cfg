SPECIFICATION Spec
CONSTANTS
  Keys = {11, 12, 21}
  Buckets = 2
  Eqs = {1, 10}
VIEW View
INVARIANT Inv
PROPERTY Obeys
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
