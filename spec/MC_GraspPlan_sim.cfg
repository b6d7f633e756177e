CONSTANTS
  MaxLevel = 14
  Sim = TRUE
  MaxTry = 40
INIT MInit
NEXT MNext
INVARIANTS Emit
CHECK_DEADLOCK FALSE
