CONSTANTS
  MaxLevel = 4
  Sim = FALSE
INIT MInit
NEXT MNext
VIEW View
INVARIANTS Good
PROPERTY Rest
CHECK_DEADLOCK FALSE
