INIT MInit
NEXT MNext
CONSTANT Kind = "val"
CONSTANT MaxLevel = 30
CHECK_DEADLOCK FALSE
INVARIANT Emit
