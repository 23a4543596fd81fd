SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxSlots = 4 MaxId = 31 FreshIds = FALSE ClearFlags = TRUE
INVARIANT UniqueIds
INVARIANT EmitsOne
PROPERTY ConvertsOnlyFlagged
CONSTRAINT Bound
