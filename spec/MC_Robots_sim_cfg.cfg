INIT MInit
NEXT MNext
CONSTANT Kind = "cfg"
CONSTANT MaxLevel = 30
CHECK_DEADLOCK FALSE
INVARIANT Emit
