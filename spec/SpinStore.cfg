SPECIFICATION Spec
CONSTANTS
  N = 2
  Ops = 2
  Max = 4
INVARIANTS Excl Exact Safe Outside
PROPERTY Atomic
CHECK_DEADLOCK TRUE
