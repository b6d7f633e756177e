INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANT MaxLevel = 5
CONSTANT Cap = 3
CONSTANT Sim = FALSE
VIEW View
CONSTRAINT Bound
INVARIANT Capacity
INVARIANT Unique
INVARIANT InUse
INVARIANT Disjoint
INVARIANT LooseApart
INVARIANT ParentsBefore
INVARIANT KidsAreKids
PROPERTY Stable
