SPECIFICATION Spec
CONSTANTS
  Shapes = {6}
  Vals = {0, 7, 255}
  Group = "filters"
INVARIANT Filters
CHECK_DEADLOCK FALSE
