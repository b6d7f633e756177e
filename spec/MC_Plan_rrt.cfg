INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANT MaxLevel = 3
CONSTANT MaxC = 2
CONSTANT Kind = "rrt"
CONSTANT Sim = FALSE
CONSTRAINT Bound
INVARIANT Trees
INVARIANT Roots
INVARIANT Roots2
INVARIANT Cycles
PROPERTY Solved
PROPERTY OnlyByPlanning
