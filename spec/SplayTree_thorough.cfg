SPECIFICATION Spec
CONSTANT N = 8
INVARIANTS Links Ordered Neighbours
CHECK_DEADLOCK FALSE
