CONSTANTS NPatch = 4 NRank = 3 MaxSteps = 3 Local = FALSE Skeleton = FALSE
SPECIFICATION Spec
INVARIANTS OnceEach Settled SameAsTwin AllOrNone
CHECK_DEADLOCK TRUE
