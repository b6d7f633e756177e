INIT TInit
NEXT TNext
INVARIANT InvLock
POSTCONDITION Finished
CHECK_DEADLOCK FALSE
