SPECIFICATION Spec
CONSTANTS Last = 3 Shift = 2 Variant = "nowindow"
INVARIANTS Continues
CHECK_DEADLOCK FALSE
