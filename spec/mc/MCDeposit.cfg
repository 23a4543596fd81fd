SPECIFICATION Spec
CONSTANTS U = 4
 D = 2
 Variant = "none"
INVARIANTS Continuity Whole
CHECK_DEADLOCK FALSE
