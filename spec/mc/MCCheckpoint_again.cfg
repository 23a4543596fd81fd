SPECIFICATION Spec
CONSTANTS Last = 3 Shift = 2 Variant = "again"
INVARIANTS Continues
CHECK_DEADLOCK FALSE
