SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS NSlots = 4 NB = 2 MaxOps = 1
INVARIANT Exact
PROPERTY Permutes
