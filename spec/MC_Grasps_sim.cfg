INIT MInit
NEXT MNext
CONSTANT MaxLevel = 40
CONSTANT Sim = TRUE
CHECK_DEADLOCK FALSE
INVARIANT Emit
