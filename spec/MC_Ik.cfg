CONSTANTS
  MaxLevel = 3
  Sim = FALSE
INIT MInit
NEXT MNext
VIEW View
INVARIANTS InvAcross InvSlide InvHinge InvParts InvZero InvMass
CHECK_DEADLOCK FALSE
