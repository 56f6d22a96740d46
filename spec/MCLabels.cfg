SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 3
  V = 1
INVARIANTS InForest Linked Right
CHECK_DEADLOCK FALSE
