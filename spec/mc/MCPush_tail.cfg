SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS L = 3 N = 3 Strip = 2 NP = 1 NS = 2 Starts = {0, 1} Variant = "tail"
INVARIANTS Same Currents
