INIT RInit
NEXT RNext
INVARIANT Allowed
CHECK_DEADLOCK FALSE
