SPECIFICATION Spec
CONSTANTS
  W = 4
  H = 3
  V = 1
INVARIANTS InForest Linked Right
CHECK_DEADLOCK FALSE
