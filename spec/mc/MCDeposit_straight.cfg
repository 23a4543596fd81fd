SPECIFICATION Spec
CONSTANTS U = 4
 D = 2
 Variant = "straight"
INVARIANTS Continuity Whole
CHECK_DEADLOCK FALSE
