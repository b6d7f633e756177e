INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANT MaxLevel = 30
CONSTANT Sim = TRUE
INVARIANT Emit
