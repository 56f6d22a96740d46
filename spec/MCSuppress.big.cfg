SPECIFICATION Spec
CONSTANTS
  W = 4
  H = 3
  Vals = {0, 1}
  Rs = {1, 2}
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
