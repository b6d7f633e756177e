INIT MInit
NEXT MNext
CONSTANT MaxLevel = 5
CONSTANT Sim = FALSE
CHECK_DEADLOCK FALSE
VIEW View
CONSTRAINT Bound
INVARIANT GInv
PROPERTY Frame
