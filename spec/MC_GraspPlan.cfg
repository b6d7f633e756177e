CONSTANTS
  MaxLevel = 4
  Sim = FALSE
  MaxTry = 7
INIT MInit
NEXT MNext
INVARIANTS Good Back
VIEW View
CHECK_DEADLOCK FALSE
