INIT Init
NEXT SNext
CHECK_DEADLOCK TRUE
