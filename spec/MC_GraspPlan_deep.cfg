CONSTANTS
  MaxLevel = 6
  Sim = FALSE
  MaxTry = 10
INIT MInit
NEXT MNext
INVARIANTS Good Back
VIEW View
CHECK_DEADLOCK FALSE
