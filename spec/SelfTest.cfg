INIT RInit
NEXT SNext
CHECK_DEADLOCK FALSE
