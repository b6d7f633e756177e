INIT MInit
NEXT MNext
CONSTANT MaxLevel = 6
CONSTANT Sim = FALSE
CHECK_DEADLOCK FALSE
VIEW View
CONSTRAINT Bound
INVARIANT InvFK
INVARIANT Shape
INVARIANT Bodies
INVARIANT TreeOK
