INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANT MaxLevel = 5
CONSTANT N = 4
CONSTANT Sim = FALSE
INVARIANT Kept
INVARIANT StaysValid
INVARIANT PrunedIsPruned
PROPERTY InputKept
PROPERTY Shrinks
