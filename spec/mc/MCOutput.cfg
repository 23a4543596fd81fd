SPECIFICATION Spec
CONSTANTS NP = 3
 M = 2
 Ranks = {0,1}
 Chunk = 2
 Variant = "turns"
INVARIANTS Complete Shares
CHECK_DEADLOCK FALSE
