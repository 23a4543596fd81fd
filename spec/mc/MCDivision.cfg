SPECIFICATION Spec
CONSTANTS Ns = {12, 16, 18, 24, 25}
 Ngs = {2, 3}
 Pmls = {3, 6}
 Wants = {1, 4, 8}
 Rule = "and"
INVARIANTS Usable
CHECK_DEADLOCK FALSE
