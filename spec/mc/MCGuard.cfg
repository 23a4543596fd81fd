SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS G <- MCG
 RankMaps <- MCRanks
 Mode = "guard"
 ByStrip = FALSE
INVARIANTS Correct NothingLeftOver NoDeadlock
