SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NC = 4
 Divs = {2}
 DV = {0, 2, 4}
 PV = {0, 1, 2}
 Thr = 2
 Variant = "shared"
INVARIANTS NoGap Fits Exact
