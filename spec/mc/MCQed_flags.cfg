SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxSlots = 4 MaxId = 31 FreshIds = TRUE ClearFlags = FALSE
INVARIANT UniqueIds
INVARIANT EmitsOne
PROPERTY ConvertsOnlyFlagged
CONSTRAINT Bound
