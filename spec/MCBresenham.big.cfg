SPECIFICATION Spec
CONSTANT M = 5
INVARIANTS Near ErrorRange Done
CHECK_DEADLOCK FALSE
