INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANT MaxLevel = 4
CONSTANT Sim = FALSE
INVARIANT Bytes
INVARIANT Agree
INVARIANT Outside
PROPERTY Apart
