SPECIFICATION Spec
CONSTANTS U = 2
 D = 3
 Variant = "none"
INVARIANTS Continuity Whole
CHECK_DEADLOCK FALSE
