INIT MInit
NEXT MNext
CONSTANT MaxLevel = 14
CONSTANT Sim = TRUE
CHECK_DEADLOCK FALSE
INVARIANT Emit
