INIT MInit
NEXT MNext
CONSTANT MaxLevel = 50
CHECK_DEADLOCK FALSE
INVARIANT Emit
