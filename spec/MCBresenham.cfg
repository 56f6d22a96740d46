SPECIFICATION Spec
CONSTANT M = 3
INVARIANTS Near ErrorRange Done
CHECK_DEADLOCK FALSE
