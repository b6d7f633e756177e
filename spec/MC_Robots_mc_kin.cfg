INIT MInit
NEXT MNext
CONSTANT Kind = "kin"
CONSTANT MaxLevel = 3
CHECK_DEADLOCK FALSE
VIEW View
CONSTRAINT Bound
INVARIANT InvFK
INVARIANT InvModels
INVARIANT InvRigid
INVARIANT InLim
INVARIANT SetsOK
INVARIANT Closed
INVARIANT CfgIn
PROPERTY Independent
PROPERTY Frame
