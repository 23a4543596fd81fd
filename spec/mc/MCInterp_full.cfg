SPECIFICATION Spec
CONSTANTS U = 16
 D = 2
 Variant = "none"
INVARIANTS One Linear Tie
CHECK_DEADLOCK FALSE
