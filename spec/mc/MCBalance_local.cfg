CONSTANTS NPatch = 4 NRank = 2 MaxSteps = 3 Local = TRUE Skeleton = FALSE
SPECIFICATION Spec
INVARIANTS OnceEach Settled SameAsTwin AllOrNone
CHECK_DEADLOCK TRUE
