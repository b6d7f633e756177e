CONSTANTS
  MaxLevel = 20
  Sim = TRUE
INIT MInit
NEXT MNext
INVARIANTS Emit
CHECK_DEADLOCK FALSE
