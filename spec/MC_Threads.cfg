SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Repeat = TRUE
CONSTANT MaxRuns = 3
INVARIANT TypeOK
INVARIANT FlagTruth
INVARIANT Ended
INVARIANT OnlyWhenAsked
PROPERTY Quiet
PROPERTY Terminates
