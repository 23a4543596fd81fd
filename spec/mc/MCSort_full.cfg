SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS NSlots = 4 NB = 3 MaxOps = 1
INVARIANT Exact
PROPERTY Permutes
