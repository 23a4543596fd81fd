SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxSlots = 3 MaxId = 28 FreshIds = TRUE ClearFlags = TRUE
INVARIANT UniqueIds
INVARIANT EmitsOne
PROPERTY ConvertsOnlyFlagged
CONSTRAINT Bound
