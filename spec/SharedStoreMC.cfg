SPECIFICATION Spec
CONSTANTS
  Regs2 = 2
VIEW Canon
INVARIANT Inv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
