SPECIFICATION Spec
CONSTANTS NP = 3
 N = 2
 Halves = 8
 Variant = "nosync_b"
INVARIANTS Same
CHECK_DEADLOCK FALSE
