SPECIFICATION Spec
CONSTANT N = 6
INVARIANTS Links Ordered Neighbours
CHECK_DEADLOCK FALSE
