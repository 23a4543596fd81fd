SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxSlots = 3 MaxId = 4
INVARIANT DistinctIds
PROPERTY Refines
PROPERTY NoLoss
