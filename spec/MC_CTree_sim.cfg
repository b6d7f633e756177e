INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANT MaxLevel = 40
CONSTANT Cap = 6
CONSTANT Sim = TRUE
INVARIANT Emit
