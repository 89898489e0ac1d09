SPECIFICATION Spec
CONSTANTS
  N = 2
  Ops = 3
  Max = 5
INVARIANTS Excl Exact Safe Outside
PROPERTY Atomic
CHECK_DEADLOCK TRUE
