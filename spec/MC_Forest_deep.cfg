INIT MInit
NEXT MNext
CONSTANT MaxLevel = 7
CONSTANT Objs = {"x", "y", "z"}
CONSTANT WithRobot = TRUE
CHECK_DEADLOCK FALSE
VIEW View
CONSTRAINT Bound
INVARIANT Tree
INVARIANT Acyclic
INVARIANT UniqueNames
INVARIANT Owned
PROPERTY Still
PROPERTY OnlyBelow
PROPERTY Together
