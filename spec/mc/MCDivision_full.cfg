SPECIFICATION Spec
CONSTANTS Ns = {9, 12, 16, 18, 20, 24, 25, 30, 32, 36}
 Ngs = {1, 2, 3}
 Pmls = {1, 3, 6, 8}
 Wants = {1, 4, 8, 16, 32}
 Rule = "and"
INVARIANTS Usable
CHECK_DEADLOCK FALSE
