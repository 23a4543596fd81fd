SPECIFICATION Spec
CONSTANTS NP = 4
 N = 2
 Halves = 12
 Variant = "none"
INVARIANTS Same Guards
CHECK_DEADLOCK FALSE
