INIT MInit
NEXT MNext
CONSTANT MaxLevel = 6
CONSTANT Sim = FALSE
CHECK_DEADLOCK FALSE
VIEW View
CONSTRAINT Bound
INVARIANT GInv
PROPERTY Frame
