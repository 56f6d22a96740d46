SPECIFICATION Spec
CONSTANTS
  Shapes = {6}
  Vals = {0, 255}
  Group = "morphology"
INVARIANT Morphology
CHECK_DEADLOCK FALSE
