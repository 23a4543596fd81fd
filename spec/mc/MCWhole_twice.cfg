SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS L = 4 M = 2 NP = 2 N = 2 Starts = {0, 3, 7} Us = {0, 1, 2} Es = {0, 1} Steps = 2 Variant = "twice"
INVARIANTS SameFields SameParticles Gauss
