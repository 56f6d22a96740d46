SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 3
  Vals = {0, 1}
  Rs = {0, 1, 2, 3}
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
