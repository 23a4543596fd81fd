CONSTANTS NC = 2 MaxSlots = 2 MaxCount = 2 Renew = TRUE Restart = FALSE
SPECIFICATION Spec
CONSTRAINT Bound
INVARIANTS Unique Permanent
CHECK_DEADLOCK FALSE
