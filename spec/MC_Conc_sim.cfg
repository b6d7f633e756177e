CONSTANTS
  NT = 3
  Sim = TRUE
  MaxLevel = 0
INIT MInit
NEXT MNext
INVARIANTS InvMemory InvReads InvMutex Emit
CHECK_DEADLOCK FALSE
