CONSTANTS
  MaxLevel = 5
  Sim = FALSE
INIT MInit
NEXT MNext
VIEW View
INVARIANTS Good InvFK
CHECK_DEADLOCK FALSE
