SPECIFICATION Spec
INVARIANTS Inv Back Carry
CONSTANTS B = 10000 Walk = 25
CHECK_DEADLOCK FALSE
