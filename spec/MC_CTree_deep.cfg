INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANT MaxLevel = 7
CONSTANT Cap = 4
CONSTANT Sim = FALSE
VIEW View
CONSTRAINT Bound
INVARIANT Capacity
INVARIANT Unique
INVARIANT InUse
INVARIANT Disjoint
INVARIANT LooseApart
INVARIANT ParentsBefore
INVARIANT KidsAreKids
PROPERTY Stable
