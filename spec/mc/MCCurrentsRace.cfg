SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS G <- MCG
 RankMaps <- MCRanks
 Mode = "cur"
 ByStrip = TRUE
INVARIANTS Correct NothingLeftOver NoDeadlock
