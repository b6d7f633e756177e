INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANT MaxLevel = 4
CONSTANT Sim = FALSE
INVARIANT IsFirst
INVARIANT Finds
INVARIANT RoundTrip
PROPERTY Stable
