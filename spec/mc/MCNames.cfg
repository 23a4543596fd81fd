SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Wishes <- W1
 N = 5
 Variant = "none"
INVARIANTS Unique Kept
