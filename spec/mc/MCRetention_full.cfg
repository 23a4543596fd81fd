SPECIFICATION Spec
CONSTANTS Ranks = {0,1,2}
 First = 7
 Last = 13
 Iv = 2
 K = 3
 Variant = "good"
INVARIANTS Recent Whole NoHang Saved
CHECK_DEADLOCK FALSE
