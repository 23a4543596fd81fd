SPECIFICATION Spec
CONSTANTS U = 4
 D = 2
 Variant = "none"
INVARIANTS One Linear Tie
CHECK_DEADLOCK FALSE
