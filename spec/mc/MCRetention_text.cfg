SPECIFICATION Spec
CONSTANTS Ranks = {0}
 First = 8
 Last = 11
 Iv = 1
 K = 2
 Variant = "text"
INVARIANTS Recent Whole NoHang Saved
CHECK_DEADLOCK FALSE
