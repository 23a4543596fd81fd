SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS NSlots = 5 NB = 2 MaxOps = 0
INVARIANT Exact
PROPERTY Permutes
