INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANT MaxLevel = 24
CONSTANT Sim = TRUE
INVARIANT Emit
