CONSTANTS
  NT = 3
  Sim = FALSE
  MaxLevel = 0
INIT MInit
NEXT MNext
VIEW View
INVARIANTS InvMemory InvReads InvMutex InvOwn InvEnd
