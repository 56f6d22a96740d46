SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  Vals = {0, 1, 7}
  MaxR = 5
INVARIANTS Running IsMean
CHECK_DEADLOCK FALSE
