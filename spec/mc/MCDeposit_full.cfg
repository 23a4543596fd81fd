SPECIFICATION Spec
CONSTANTS U = 6
 D = 2
 Variant = "none"
INVARIANTS Continuity Whole
CHECK_DEADLOCK FALSE
