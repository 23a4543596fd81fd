SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NP = 5
 NR = 3
 Steps = 3
 MaxStop = 3
 Variant = "ok"
INVARIANTS Fresh Sum
