SPECIFICATION Spec
CONSTANTS
  Shapes = {6}
  Vals = {0, 7, 255}
  Group = "geometry"
INVARIANT Geometry
CHECK_DEADLOCK FALSE
