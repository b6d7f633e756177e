INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANT MaxLevel = 6
CONSTANT MaxPts = 4
CONSTANT Sim = FALSE
VIEW View
CONSTRAINT Bound
INVARIANT Lengths
INVARIANT Exact
INVARIANT RoundTrip
PROPERTY Local
