SPECIFICATION Spec
CONSTANTS NP = 3
 N = 2
 Halves = 8
 Variant = "none"
INVARIANTS Same Guards
CHECK_DEADLOCK FALSE
