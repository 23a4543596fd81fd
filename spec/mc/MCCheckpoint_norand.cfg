SPECIFICATION Spec
CONSTANTS Last = 3 Shift = 2 Variant = "norand"
INVARIANTS Continues
CHECK_DEADLOCK FALSE
