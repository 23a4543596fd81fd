SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS L = 3 N = 3 Strip = 2 NP = 2 NS = 1 Starts = {0, 1} Variant = ""
INVARIANTS Same Currents
