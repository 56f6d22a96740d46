SPECIFICATION Spec
CONSTANT N = 6
INVARIANTS Acyclic SameRootIffLinked SizesRight TreesCounted LogDepth
CHECK_DEADLOCK FALSE
