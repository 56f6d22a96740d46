SPECIFICATION Spec
CONSTANTS
  Shapes = {6}
  Vals = {0, 7, 255}
  Group = "regions"
INVARIANT Regions
CHECK_DEADLOCK FALSE
