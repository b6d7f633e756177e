INIT LMInit
NEXT LMNext
CONSTANT Kind = "none"
CONSTANT MaxLevel = 6
CHECK_DEADLOCK FALSE
VIEW LView
CONSTRAINT Bound
INVARIANT FramesIn
INVARIANT RoundTrip
INVARIANT InvFK
PROPERTY Stays
