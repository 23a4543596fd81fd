SPECIFICATION Spec
CONSTANTS Last = 5 Shift = 3 Variant = "ok"
INVARIANTS Continues
CHECK_DEADLOCK FALSE
