INIT MInit
NEXT MNext
CONSTANT Kind = "kin"
CONSTANT MaxLevel = 30
CHECK_DEADLOCK FALSE
INVARIANT Emit
