INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANT MaxLevel = 40
CONSTANT MaxPts = 5
CONSTANT Sim = TRUE
CONSTRAINT Bound
INVARIANT Emit
