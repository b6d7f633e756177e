INIT MInit
NEXT MNext
CONSTANT MaxLevel = 40
CONSTANT Objs = {"x", "y", "z", "w"}
CONSTANT WithRobot = TRUE
CHECK_DEADLOCK FALSE
INVARIANT Emit
