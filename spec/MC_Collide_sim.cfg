INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANT MaxLevel = 60
CONSTANT Geo = FALSE
CONSTANT Sim = TRUE
INVARIANT Emit
