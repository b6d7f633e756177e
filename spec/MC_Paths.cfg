INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANT MaxLevel = 4
CONSTANT MaxPts = 3
CONSTANT Sim = FALSE
VIEW View
CONSTRAINT Bound
INVARIANT Lengths
INVARIANT Exact
INVARIANT RoundTrip
PROPERTY Local
