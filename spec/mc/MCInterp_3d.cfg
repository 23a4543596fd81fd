SPECIFICATION Spec
CONSTANTS U = 2
 D = 3
 Variant = "none"
INVARIANTS One Linear Tie
CHECK_DEADLOCK FALSE
