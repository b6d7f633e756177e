INIT MInit
NEXT MNext
CONSTANT Kind = "copy"
CONSTANT MaxLevel = 30
CHECK_DEADLOCK FALSE
INVARIANT Emit
