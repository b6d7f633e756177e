INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANT MaxLevel = 5
CONSTANT MaxC = 3
CONSTANT Kind = "birrt"
CONSTANT Sim = FALSE
CONSTRAINT Bound
INVARIANT Trees
INVARIANT Roots
INVARIANT Roots2
INVARIANT Cycles
PROPERTY Solved
PROPERTY OnlyByPlanning
