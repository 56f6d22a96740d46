SPECIFICATION Spec
CONSTANTS
  W = 4
  H = 4
INVARIANTS Right Labels Marked
CHECK_DEADLOCK FALSE
