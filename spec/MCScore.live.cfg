SPECIFICATION Spec
CONSTANT M = 40
INVARIANTS Bracket Kept
PROPERTIES Shrinks Ends
CHECK_DEADLOCK FALSE
