SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS G <- MCG
 RankMaps <- MCRanks
 Mode = "cur"
 ByStrip = FALSE
INVARIANTS Correct NothingLeftOver NoDeadlock
