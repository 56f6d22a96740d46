SPECIFICATION Spec
CONSTANT M = 255
INVARIANTS Bracket Kept
PROPERTIES Shrinks
CHECK_DEADLOCK FALSE
