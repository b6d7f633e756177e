INIT MInit
NEXT MNext
CONSTANT Kind = "copy"
CONSTANT MaxLevel = 5
CHECK_DEADLOCK FALSE
VIEW View
CONSTRAINT Bound
INVARIANT InvFK
INVARIANT InvModels
INVARIANT InvRigid
INVARIANT InLim
INVARIANT SetsOK
INVARIANT Closed
INVARIANT CfgIn
PROPERTY Independent
PROPERTY Frame
