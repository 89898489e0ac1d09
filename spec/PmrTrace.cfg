INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
