SPECIFICATION Spec
CONSTANT Lens = {9, 12}
INVARIANTS Right FirstSet RunIsRun
CHECK_DEADLOCK FALSE
