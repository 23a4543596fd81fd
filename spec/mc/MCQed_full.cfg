SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxSlots = 4 MaxId = 30 FreshIds = TRUE ClearFlags = TRUE
INVARIANT UniqueIds
INVARIANT EmitsOne
PROPERTY ConvertsOnlyFlagged
CONSTRAINT Bound
