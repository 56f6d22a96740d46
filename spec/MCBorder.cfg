SPECIFICATION Spec
CONSTANTS
  W = 4
  H = 3
INVARIANTS Right Labels Marked
CHECK_DEADLOCK FALSE
