SPECIFICATION Spec
CONSTANTS MaxN = 7
  Depth = 12
INVARIANT Emit
CHECK_DEADLOCK FALSE
