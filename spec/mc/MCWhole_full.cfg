SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS L = 6 M = 2 NP = 3 N = 2 Starts = {0, 3, 5, 11} Us = {0, 1, 2} Es = {0, 1} Steps = 3 Variant = ""
INVARIANTS SameFields SameParticles Gauss
