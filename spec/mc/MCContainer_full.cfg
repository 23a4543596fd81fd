SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxSlots = 3 MaxId = 5
INVARIANT DistinctIds
PROPERTY Refines
PROPERTY NoLoss
