SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS G <- MCG
 RankMaps <- MCRanks
 Inits <- MCInits
 NS = 1
INVARIANTS Correct NothingLeftOver NoDeadlock
