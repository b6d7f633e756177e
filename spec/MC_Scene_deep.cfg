INIT MInit
NEXT MNext
CONSTANT MaxLevel = 6
CHECK_DEADLOCK FALSE
VIEW View
CONSTRAINT Bound
INVARIANT OnePerName
INVARIANT SetsOnce
INVARIANT Found
PROPERTY Frame
PROPERTY Other
PROPERTY Stays
