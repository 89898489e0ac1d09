INIT InitU
NEXT UNext
CHECK_DEADLOCK TRUE
