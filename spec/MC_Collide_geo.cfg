INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANT MaxLevel = 5
CONSTANT Sim = FALSE
CONSTANT Geo = TRUE
VIEW View
CONSTRAINT Bound
INVARIANT Symmetric
INVARIANT Agree
INVARIANT Union
