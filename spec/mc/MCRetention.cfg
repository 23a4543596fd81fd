SPECIFICATION Spec
CONSTANTS Ranks = {0,1}
 First = 8
 Last = 11
 Iv = 2
 K = 2
 Variant = "good"
INVARIANTS Recent Whole NoHang Saved
CHECK_DEADLOCK FALSE
