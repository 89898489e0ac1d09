SPECIFICATION Spec
CONSTANTS
  W = 3
  MaxSize = 5
  GrowTo = 7
INVARIANTS Refines Whole
CHECK_DEADLOCK FALSE
