INIT MInit
NEXT MNext
CONSTANT Kind = "sets"
CONSTANT MaxLevel = 30
CHECK_DEADLOCK FALSE
INVARIANT Emit
