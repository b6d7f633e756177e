INIT LMInit
NEXT LMNext
CONSTANT Kind = "none"
CONSTANT MaxLevel = 30
CHECK_DEADLOCK FALSE
INVARIANT LEmit
