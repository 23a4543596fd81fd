SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NS = 3
 Steps = 2
 Pairs <- P3
 Variant = "debye"
INVARIANTS Frozen Absent Goes
