INIT MInit
NEXT MNext
CONSTANT MaxLevel = 6
CONSTANT Sim = TRUE
CHECK_DEADLOCK FALSE
INVARIANT Emit
