INIT LInit
NEXT LNext
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
