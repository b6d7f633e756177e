INIT MInit
NEXT MNext
CONSTANT MaxLevel = 7
CONSTANT Sim = FALSE
CHECK_DEADLOCK FALSE
VIEW View
CONSTRAINT Bound
INVARIANT InvFK
INVARIANT InvRigid
INVARIANT LimitsOrdered
INVARIANT StoreKeeps
INVARIANT ValuesIn
