SPECIFICATION Spec
CONSTANTS Last = 3 Shift = 2 Variant = "ok"
INVARIANTS Continues
CHECK_DEADLOCK FALSE
