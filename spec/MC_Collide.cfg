INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANT MaxLevel = 4
CONSTANT Sim = FALSE
CONSTANT Geo = FALSE
VIEW View
CONSTRAINT Bound
INVARIANT Complete
INVARIANT Once
PROPERTY Monotone
