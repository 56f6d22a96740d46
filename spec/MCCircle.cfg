SPECIFICATION Spec
CONSTANT MaxR = 30
INVARIANTS Decision Eighth Whole Close
CHECK_DEADLOCK FALSE
