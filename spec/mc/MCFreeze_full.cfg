SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NS = 4
 Steps = 3
 Pairs <- P3
 Variant = "none"
INVARIANTS Frozen Absent Goes
