SPECIFICATION Spec
INVARIANT Inv
PROPERTY Obeys
CONSTANTS MaxDepth = 6 CountsAtStart = TRUE
CHECK_DEADLOCK FALSE
