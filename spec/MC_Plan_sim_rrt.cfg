INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANT MaxLevel = 24
CONSTANT MaxC = 3
CONSTANT Kind = "rrt"
CONSTANT Sim = TRUE
INVARIANT Emit
