INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANT MaxLevel = 24
CONSTANT N = 9
CONSTANT Sim = TRUE
INVARIANT Emit
