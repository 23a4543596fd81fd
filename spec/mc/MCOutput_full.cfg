SPECIFICATION Spec
CONSTANTS NP = 4
 M = 3
 Ranks = {0,1,2}
 Chunk = 2
 Variant = "turns"
INVARIANTS Complete Shares
CHECK_DEADLOCK FALSE
