INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
CONSTANT Base = 256
