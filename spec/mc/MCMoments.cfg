SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS NP = 2 NS = 2 Ranks = {0, 1} Us = {0, 3} Ms = {0, 2} Variant = ""
INVARIANTS Exact Independent Lorentz
