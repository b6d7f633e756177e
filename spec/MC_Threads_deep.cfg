SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Repeat = TRUE
CONSTANT MaxRuns = 12
INVARIANT TypeOK
INVARIANT FlagTruth
INVARIANT Ended
INVARIANT OnlyWhenAsked
PROPERTY Quiet
PROPERTY Terminates
