SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NP = 3
 NR = 2
 Steps = 2
 MaxStop = 2
 Variant = "after"
INVARIANTS Fresh Sum
