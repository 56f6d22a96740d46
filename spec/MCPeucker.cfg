SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxLen = 4
  Eps2 = {0, 1, 2}
INVARIANTS Within Tiled
CHECK_DEADLOCK FALSE
