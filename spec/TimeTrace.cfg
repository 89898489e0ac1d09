INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
CONSTANT B = 10000
