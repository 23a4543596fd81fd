SPECIFICATION Spec
CONSTANTS Last = 3 Shift = 2 Variant = "product"
INVARIANTS Continues
CHECK_DEADLOCK FALSE
